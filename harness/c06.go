package main

import (
	"math/rand"
	"strings"
	"unicode/utf8"

	"yunion.io/x/jsonutils"
)

func init() { checks["C06"] = c06 }

// yamlKeys says whether every key and string is in the scope of YAML: valid
// UTF-8, and no key that YAML reserves for merging.
func yamlScope(v *V) bool {
	if v.T == 's' && !utf8.ValidString(v.S) {
		return false
	}
	for _, x := range v.A {
		if !yamlScope(x) {
			return false
		}
	}
	for _, x := range v.O {
		if !utf8.ValidString(x.K) || strings.TrimSpace(x.K) == "<<" || !yamlScope(x.V) {
			return false
		}
	}
	return true
}

// yamlChars says whether a text holds only characters that YAML lets a
// document hold unescaped (DEL, C1 controls, U+FFFE and U+FFFF are not) and does not take as a line break (NEL, LS, PS).
func yamlChars(t string) bool {
	for _, c := range t {
		if c == 0x7f || c >= 0x80 && c < 0xa0 || c == 0x2028 || c == 0x2029 || c == 0xfffe || c == 0xffff || c == 0xfeff {
			return false
		}
	}
	return true
}

func c06case(r *rand.Rand, v *V) M {
	if v.size() > 1500 {
		return nil
	}
	d := made(r, v)
	t, p := d.String(), d.PrettyString()
	rec := M{"k": "doc", "v": v.enc(), "t": BS(t), "pretty": BS(p), "pp": parsed(p), "y": L{"skip"}, "jy": L{"skip"}, "py": L{"skip"}}
	if yamlScope(v) {
		rec["y"] = outcome2(jsonutils.ParseYAML(d.YAMLString()))
	}
	if yamlScope(v) && yamlChars(t) {
		rec["jy"] = outcome2(jsonutils.ParseYAML(t))
		rec["py"] = outcome2(jsonutils.ParseYAML(p))
	}
	return rec
}

func outcome2(o jsonutils.JSONObject, err error) L { return outcome(o, err) }

func c06(c *Ctx) {
	for _, v := range specDocs(c) {
		v := v
		c.Case("spec-doc", func(r *rand.Rand) M { return c06case(r, v) })
	}
	for n := c.Scale(1200, 15000); n > 0; n-- {
		c.Case("doc", func(r *rand.Rand) M { return c06case(r, genDoc(r, r.Intn(4) > 0, 60, 200)) })
	}
}
