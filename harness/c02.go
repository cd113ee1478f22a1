package main

import (
	"math/rand"

	"yunion.io/x/jsonutils"
)

func init() { checks["C02"] = c02 }

func parsed(text string) L {
	o, err := jsonutils.ParseString(text)
	return outcome(o, err)
}

// outcome is <<"ok", value>>, <<"err">>, or <<"both">>/<<"neither">> when an error comes with a value or nothing comes at all.
func outcome(o jsonutils.JSONObject, err error) L {
	switch {
	case err != nil && o != nil:
		return L{"both"}
	case err != nil:
		return L{"err"}
	case o == nil:
		return L{"neither"}
	}
	return L{"ok", Enc(o)}
}

func c02case(r *rand.Rand, v *V) M {
	if v.size() > 1500 {
		return nil
	}
	d := build(r, v)
	t := d.String()
	p, err := jsonutils.ParseString(t)
	rec := M{"k": "doc", "v": v.enc(), "t": BS(t), "p": outcome(p, err), "t2": BS("")}
	if err == nil {
		rec["t2"] = BS(p.String())
	}
	return rec
}

func c02(c *Ctx) {
	for _, v := range specDocs(c) {
		v := v
		c.Case("spec-doc", func(r *rand.Rand) M { return c02case(r, v) })
	}
	for n := c.Scale(1600, 20000); n > 0; n-- {
		c.Case("doc", func(r *rand.Rand) M { return c02case(r, genDoc(r, r.Intn(4) > 0, 60, 200)) })
	}
}
