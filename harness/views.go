package main

// Marshalled documents read in place, references and all (spec/Views.tla).

import (
	"math/rand"
	"sort"

	"yunion.io/x/jsonutils"
)

func init() { checks["views"] = views }

func mapOut(m map[string]JO) L {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := L{}
	for _, k := range keys {
		out = append(out, L{BS(k), BS(m[k].String())})
	}
	return out
}

func viewRec(r *rand.Rand) M {
	fam := gfams[r.Intn(len(gfams))]
	all := r.Intn(2) == 0
	g := randGraph(r, fam, all)
	ps := gBuild(fam, g)
	var d JO
	if all {
		d = jsonutils.MarshalAll(ps[0].Interface())
	} else {
		d = jsonutils.Marshal(ps[0].Interface())
	}
	rec := M{"text": BS(d.String())}
	if r.Intn(4) == 0 {
		// its members taken over into a document of the user's own
		h := jsonutils.NewDict()
		h.Set("doc", d)
		h.Set("list", jsonutils.NewArray(d, jsonutils.NewInt(1)))
		h.Set("i", jsonutils.NewInt(7))
		d = h
		if r.Intn(2) == 0 {
			d = jsonutils.NewArray(h, jsonutils.JSONNull)
		}
		rec["text"] = BS(d.String())
	}
	places := L{}
	step := L{}
	for n := 0; n < 14; n++ {
		asks := L{}
		ask := func(q string, k string, n int, ok bool, out interface{}) {
			asks = append(asks, M{"q": q, "k": BS(k), "n": n, "ok": ok, "out": out})
		}
		text := func(o JO, err error) interface{} {
			if err != nil || o == nil {
				return BS("")
			}
			return BS(o.String())
		}
		m, err := d.GetMap()
		ask("GetMap", "", 0, err == nil, mapOut(m))
		var keys []string
		var nexts []L
		var vals []JO
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		keys = append(keys, "nokey", "")
		for _, k := range keys {
			o, err := d.Get(k)
			ask("Get", k, 0, err == nil, text(o, err))
			ask("Contains", k, 0, d.Contains(k), BS(""))
			i, ierr := d.Int(k)
			ask("Int", k, 0, ierr == nil, BS(jsonutils.NewInt(i).String()))
			if err == nil {
				if r.Intn(2) == 0 && m[k] != nil {
					o = m[k]
				}
				nexts, vals = append(nexts, L{"k", BS(k)}), append(vals, o)
			}
		}
		switch d.(type) {
		case *jsonutils.JSONInt:
			// a scalar asked for an array is one of itself; that is asked elsewhere
		default:
			a, err := d.GetArray()
			out := L{}
			for j, x := range a {
				out = append(out, BS(x.String()))
				nexts, vals = append(nexts, L{"i", j}), append(vals, x)
			}
			ask("GetArray", "", 0, err == nil, out)
			for _, j := range []int{0, -1, len(a) - 1, len(a), -len(a), -len(a) - 1} {
				o, err := d.GetAt(j)
				ask("GetAt", "", j, err == nil, text(o, err))
			}
		}
		places = append(places, M{"step": step, "asks": asks})
		var on []int
		for j, x := range vals {
			if _, ok := x.(*jsonutils.JSONInt); !ok && x != jsonutils.JSONNull {
				on = append(on, j)
			}
		}
		if len(on) == 0 {
			break
		}
		j := on[r.Intn(len(on))]
		step, d = nexts[j], vals[j]
	}
	rec["places"] = places
	return rec
}

func views(c *Ctx) {
	for n := c.Scale(600, 6000); n > 0; n-- {
		c.Case("view", viewRec)
	}
}
