package main

// Query strings, written and read.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"strings"

	"yunion.io/x/jsonutils"
)

func init() {
	checks["C22"] = c22
	checks["C23"] = c23
}

func encodeRec(r *rand.Rand, v *V) M {
	d := build(r, v)
	t := d.QueryString()
	o, err := jsonutils.ParseQueryString(t)
	return M{"k": "encode", "d": EncNoId(d), "t": BS(t), "out": parsedOr(o, err)}
}

func parsedOr(o jsonutils.JSONObject, err error) L {
	if err != nil {
		return L{"err"}
	}
	return L{"ok", EncNoId(o)}
}

func decodeRec(texts ...string) M {
	outs := L{}
	for _, t := range append(texts, texts[0]) {
		o, err := jsonutils.ParseQueryString(t)
		outs = append(outs, parsedOr(o, err))
	}
	return M{"k": "decode", "t": BS(texts[0]), "outs": outs}
}

func queryCases(c *Ctx, kind string, fn func(x interface{}) M) {
	inLines(c, func(line []byte) {
		var x []interface{}
		must(json.Unmarshal(line, &x))
		if x[0].(string) == kind {
			c.Case("spec", func(r *rand.Rand) M { return fn(x[1]) })
		}
	})
}

func queryKey(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0, 1, 2:
		return []string{"a", "b", "c", "name", "A", "007", "+7", "-", "-0", "99999999999999999999", "x y", "é", "ab", "a0"}[r.Intn(14)]
	case 3:
		return fmt.Sprint("k", r.Intn(30))
	default:
		for {
			s := strings.ReplaceAll(genString(r, false, 12), ".", "")
			if s != "" {
				return s
			}
		}
	}
}

// queryDoc makes an object of the kind a query string can hold; odd ones now and then.
func queryDoc(r *rand.Rand, depth int, top bool) *V {
	k := r.Intn(10)
	if depth <= 0 {
		k = r.Intn(4)
	}
	if top {
		k = 8
	}
	switch {
	case k < 4:
		v := genValue(r, &genCfg{nodes: 1, maxStr: 30}, 0)
		if v.T == 'f' && r.Intn(4) > 0 {
			v.F = float64(r.Intn(2000)-1000) / 8
		}
		return v
	case k < 7:
		v := &V{T: 'a'}
		n := 1 + r.Intn(4)
		if r.Intn(8) == 0 {
			n = 9 + r.Intn(16)
		}
		if r.Intn(60) == 0 {
			n = 95 + r.Intn(20)
		}
		for ; n > 0; n-- {
			v.A = append(v.A, queryDoc(r, depth-1, false))
		}
		return v
	}
	v := &V{T: 'o'}
	for n := 1 + r.Intn(4); n > 0; n-- {
		key := queryKey(r)
		if top && r.Intn(8) == 0 {
			key = fmt.Sprint(r.Intn(12) - 1)
		}
		v.O = append(v.O, KV{key, queryDoc(r, depth-1, false)})
	}
	return fixKeys(v)
}

func c22(c *Ctx) {
	queryCases(c, "d", func(x interface{}) M { return encodeRec(rand.New(rand.NewSource(1)), decV(x)) })
	for n := c.Scale(2500, 40000); n > 0; n-- {
		c.Case("document", func(r *rand.Rand) M {
			for {
				v := queryDoc(r, 1+r.Intn(4), true)
				if countV(v) < 60 || countV(v) < 160 && r.Intn(8) == 0 {
					return encodeRec(r, v)
				}
			}
		})
	}
}

func countV(v *V) int {
	n := 1
	for _, x := range v.A {
		n += countV(x)
	}
	for _, x := range v.O {
		n += countV(x.V)
	}
	return n
}

// escapeAny writes s in one of the many ways a query string allows.
func escapeAny(r *rand.Rand, s string) string {
	style := r.Intn(4)
	if style == 0 {
		return url.QueryEscape(s)
	}
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == ' ' && r.Intn(2) == 0:
			sb.WriteByte('+')
		case strings.IndexByte("%&+;=", c) >= 0 || style == 3 && r.Intn(2) == 0 || style == 2 && (c < 0x21 || c > 0x7e):
			fmt.Fprintf(&sb, []string{"%%%02x", "%%%02X"}[r.Intn(2)], c)
		default:
			sb.WriteByte(c)
		}
	}
	return sb.String()
}

type param struct{ n, v string }

func queryParams(r *rand.Rand) []param {
	var out []param
	val := func() string { return genString(r, false, 10) }
	switch r.Intn(8) {
	case 0: // the elements of an array, with or without a gap
		base := "a"
		if r.Intn(2) == 0 {
			base = "x.b.0"
		}
		n := 1 + r.Intn(25)
		if r.Intn(30) == 0 {
			n = 99 + r.Intn(30)
		}
		skip := r.Intn(8 * n)
		for i := 0; i < n; i++ {
			if i == skip {
				continue
			}
			name := fmt.Sprintf("%s.%d", base, i)
			if r.Intn(4) == 0 {
				name += "." + []string{"k", "0", "m.n"}[r.Intn(3)]
			}
			out = append(out, param{name, val()})
		}
	case 1, 2, 3: // the names of a document
		var walk func(v *V, path string)
		walk = func(v *V, path string) {
			if path != "" {
				path += "."
			}
			for i, x := range v.A {
				walk(x, fmt.Sprint(path, i))
			}
			for _, x := range v.O {
				walk(x.V, path+x.K)
			}
			if v.T != 'a' && v.T != 'o' {
				for n := 1 + r.Intn(8)/7*r.Intn(3); n > 0; n-- {
					out = append(out, param{strings.TrimSuffix(path, "."), val()})
				}
			}
		}
		for {
			v := queryDoc(r, 1+r.Intn(3), true)
			if countV(v) < 60 {
				walk(v, "")
				break
			}
		}
	default:
		segs := []string{"a", "b", "0", "1", "2", "0", "1", "10", "-1", "01", "", "A"}[:4+r.Intn(9)]
		for n := 1 + r.Intn(7); n > 0; n-- {
			s := segs[r.Intn(len(segs))]
			for r.Intn(2) == 0 {
				s += "." + segs[r.Intn(len(segs))]
			}
			out = append(out, param{s, val()})
		}
	}
	return out
}

// reorder moves the parameters about; those of one name keep their order.
func reorder(r *rand.Rand, ps []param) []param {
	byName := map[string][]param{}
	out := make([]param, len(ps))
	for _, p := range ps {
		byName[p.n] = append(byName[p.n], p)
	}
	for i, j := range r.Perm(len(ps)) {
		q := byName[ps[j].n]
		out[i] = q[0]
		byName[ps[j].n] = q[1:]
	}
	return out
}

func writeParams(r *rand.Rand, ps []param) string {
	var sb strings.Builder
	for i, p := range ps {
		if i > 0 || r.Intn(10) == 0 {
			sb.WriteString([]string{"&", "&", "&", "&&"}[r.Intn(4)])
		}
		sb.WriteString(escapeAny(r, p.n))
		if p.v != "" || p.n == "" || r.Intn(2) == 0 {
			sb.WriteString("=" + escapeAny(r, p.v))
		}
	}
	if r.Intn(10) == 0 {
		sb.WriteByte('&')
	}
	return sb.String()
}

func c23(c *Ctx) {
	queryCases(c, "t", func(x interface{}) M { return decodeRec(decBytes(x)) })
	for n := c.Scale(2500, 40000); n > 0; n-- {
		c.Case("parameters", func(r *rand.Rand) M {
			ps := queryParams(r)
			var texts []string
			for i := 0; i < 4; i++ {
				texts = append(texts, writeParams(r, ps))
				ps = reorder(r, ps)
			}
			return decodeRec(texts...)
		})
	}
	for n := c.Scale(800, 15000); n > 0; n-- {
		c.Case("text", func(r *rand.Rand) M {
			t := writeParams(r, queryParams(r))
			if r.Intn(8) == 0 {
				t = genString(r, false, 40)
			}
			for k := 1 + r.Intn(2); k > 0; k-- {
				i := r.Intn(len(t) + 1)
				s := []string{"%", "%4", "%zz", "%2", ";", "&", "=", "==", ".", "+", "%2e", "%26", "%3D", "%C3", "\x00", "%0g"}[r.Intn(16)]
				if r.Intn(4) == 0 {
					s = string([]byte{byte(r.Intn(256))})
				}
				t = t[:i] + s + t[i:]
			}
			return decodeRec(t)
		})
	}
}
