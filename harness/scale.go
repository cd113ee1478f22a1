package main

// Documents far larger than those of the other checks, judged by their text
// (spec/Scale.tla).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"yunion.io/x/jsonutils"
)

// D describes a document by what is repeated in it, and how often.
type D struct {
	K      string // val str arr obj key nest ring
	V      *V
	S      string // unit of a string or key, prefix of keys
	N      int
	From   int
	Width  int
	Levels []level
	Ds     []*D
}
type level struct {
	arr bool
	key string
}

func dVal(v *V) *D                  { return &D{K: "val", V: v} }
func dStr(unit string, n int) *D    { return &D{K: "str", S: unit, N: n} }
func dArr(n int, ds ...*D) *D       { return &D{K: "arr", N: n, Ds: ds} }
func dText(s string) *D             { return dStr(s+"\x00"[:b2i(s == "")], len(s)) }
func dKey(u string, n int, d *D) *D { return &D{K: "key", S: u, N: n, Ds: []*D{d}} }
func dObj(from, n int, prefix string, ds ...*D) *D {
	return &D{K: "obj", From: from, N: n, S: prefix, Width: 5, Ds: ds}
}
func dNest(n int, ls []level, d *D) *D { return &D{K: "nest", N: n, Levels: ls, Ds: []*D{d}} }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (d *D) enc() L {
	ds := L{}
	for _, x := range d.Ds {
		ds = append(ds, x.enc())
	}
	switch d.K {
	case "val":
		return L{"val", d.V.enc()}
	case "str":
		return L{"str", BS(d.S), d.N}
	case "arr":
		return L{"arr", d.N, ds}
	case "obj":
		return L{"obj", d.From, d.N, BS(d.S), d.Width, ds}
	case "ring":
		return L{"ring", d.From, d.N, BS(d.S)}
	case "key":
		return L{"key", BS(d.S), d.N, ds[0]}
	}
	ls := L{}
	for _, l := range d.Levels {
		if l.arr {
			ls = append(ls, L{"a"})
		} else {
			ls = append(ls, L{"o", BS(l.key)})
		}
	}
	return L{"nest", d.N, ls, ds[0]}
}

func cycle(unit string, n int) string {
	var b bytes.Buffer
	for b.Len() < n {
		b.WriteString(unit)
	}
	return b.String()[:n]
}

func (d *D) keyOf(i int) string { return d.S + fmt.Sprintf("%0*d", d.Width, i) }

// expand writes the document out.
func (d *D) expand() *V {
	switch d.K {
	case "val":
		return d.V
	case "str":
		return &V{T: 's', S: cycle(d.S, d.N)}
	case "arr":
		v := &V{T: 'a'}
		for i := 0; i < d.N; i++ {
			v.A = append(v.A, d.Ds[i%len(d.Ds)].expand())
		}
		return v
	case "obj":
		v := &V{T: 'o'}
		for i := d.From; i < d.From+d.N; i++ {
			v.O = append(v.O, KV{d.keyOf(i), d.Ds[i%len(d.Ds)].expand()})
		}
		return v
	case "key":
		return &V{T: 'o', O: []KV{{cycle(d.S, d.N), d.Ds[0].expand()}}}
	}
	v := d.Ds[0].expand()
	for i := d.N - 1; i >= 0; i-- {
		if l := d.Levels[i%len(d.Levels)]; l.arr {
			v = &V{T: 'a', A: []*V{v}}
		} else {
			v = &V{T: 'o', O: []KV{{l.key, v}}}
		}
	}
	return v
}

// weight is about the length of the text.
func (d *D) weight() int {
	w := 0
	for _, x := range d.Ds {
		w += x.weight() + 2
	}
	switch d.K {
	case "val":
		return 12
	case "str":
		return d.N
	case "arr":
		return d.N * w / len(d.Ds)
	case "obj":
		return d.N * (len(d.S) + d.Width + 4 + w/len(d.Ds))
	}
	return d.N*4 + w
}

// ---------------------------------------------------------------------

var borders = []int{7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300,
	499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 10001}

// huge is set for some of the cases: whatever is free of size then takes more than 65535 bytes.
var huge bool

var hugeBorders = []int{65535, 65536, 65537, 65600, 70000}

func border(r *rand.Rand, max int) int {
	if huge && max > 2000 {
		return hugeBorders[r.Intn(len(hugeBorders))]
	}
	for {
		if n := borders[r.Intn(len(borders))]; n <= max {
			if r.Intn(5) == 0 {
				n += r.Intn(40)
			}
			return n
		}
	}
}

type dcfg struct {
	utf    bool // strings are valid UTF-8
	yaml   bool // and hold nothing YAML reserves
	query  bool // what a query string can hold
	depth  int  // 0 for no limit (indenting takes a time that grows with the cube of the depth)
	maxN   int
	weight int
}

func (g *dcfg) unit(r *rand.Rand) string {
	for {
		var s string
		switch r.Intn(5) {
		case 0:
			s = "a"
		case 1:
			s = []string{"\\", "\"", "'", "\n", " ", ",", "=", "&", "%", "0", "\x00", "\t", "<"}[r.Intn(13)]
		case 2:
			s = []string{"abc", "é", "€x", "😀", "x\"y", "\\u", "1,000", "{}", "[1]", "# ", ": ", "- "}[r.Intn(12)]
		default:
			s = genString(r, g.utf || g.yaml, 12)
		}
		if s == "" || g.yaml && !yamlChars(s) || g.query && strings.Contains(s, ".") {
			continue
		}
		return s
	}
}

// str is a long string; where it has to be, valid UTF-8.
func (g *dcfg) str(r *rand.Rand, n int) *D {
	u := g.unit(r)
	if r.Intn(2) == 0 { // with something else at its end
		s := cycle(u, n)
		e := g.unit(r)
		for g.utf && !utf8.ValidString(s) {
			s = s[:len(s)-1]
		}
		return dText(s + e)
	}
	if g.utf {
		for n%len(u) != 0 {
			n++
		}
	}
	return dStr(u, n)
}

func (g *dcfg) key(r *rand.Rand) string {
	for {
		k := []string{"a", "b", "next", "k", "A", "é", "x y"}[r.Intn(7)]
		if r.Intn(4) == 0 {
			k = "k" + g.unit(r)
		}
		return k
	}
}

// leaf is a small document.
func (g *dcfg) leaf(r *rand.Rand) *D {
	if g.query {
		return dText("v" + strconv.Itoa(r.Intn(50)))
	}
	switch r.Intn(9) {
	case 0:
		return dVal(&V{T: 'n'})
	case 1:
		return dVal(&V{T: 'b', B: r.Intn(2) == 0})
	case 2, 3:
		return dVal(&V{T: 'i', I: genInt(r)})
	case 4:
		return dVal(&V{T: 'f', F: float64(2*r.Intn(1000)+1) / 4, Bit: 64})
	case 5:
		return dVal(&V{T: 'a'})
	case 6:
		return dVal(&V{T: 'o'})
	}
	return dText(g.unit(r))
}

func (g *dcfg) leaves(r *rand.Rand) []*D {
	var ds []*D
	for n := 1 + r.Intn(3); n > 0; n-- {
		ds = append(ds, g.leaf(r))
	}
	return ds
}

func (g *dcfg) levels(r *rand.Rand) []level {
	switch r.Intn(4) {
	case 0:
		return []level{{arr: true}}
	case 1:
		return []level{{key: "a"}}
	}
	var ls []level
	for n := 1 + r.Intn(3); n > 0; n-- {
		if r.Intn(2) == 0 {
			ls = append(ls, level{arr: true})
		} else {
			ls = append(ls, level{key: g.key(r)})
		}
	}
	return ls
}

// hugeDoc has something of every kind behind its first 65535 bytes, elements or levels.
func (g *dcfg) hugeDoc(r *rand.Rand) *D {
	n := hugeBorders[r.Intn(len(hugeBorders))]
	parts := []*D{g.str(r, n), dArr(2, g.leaves(r)...), dObj(0, 2, g.key(r), g.leaves(r)...), g.leaf(r),
		dArr(2, dArr(1, g.leaf(r)), dObj(0, 1, g.key(r), g.leaf(r)))}
	var d *D
	switch r.Intn(8) {
	case 0:
		d = parts[0]
	case 1, 2, 3:
		d = dArr(len(parts), parts...)
	case 4:
		d = dObj(0, len(parts), g.key(r), parts...)
	case 5:
		if g.query {
			return dObj(0, len(parts), g.key(r), parts...)
		}
		d = dArr(n, dVal(&V{T: 'i', I: 1}), dVal(&V{T: 'i', I: 2}))
	default:
		if g.depth > 0 || g.query {
			d = dArr(len(parts), parts...)
			break
		}
		d = dNest(n, g.levels(r), g.leaf(r))
		for len(d.Levels) > 1 || len(d.Levels[0].key) > 2 {
			d.Levels = g.levels(r)
		}
	}
	if g.query && d.K != "obj" {
		d = dKey("top", 3, d)
	}
	return d
}

func (g *dcfg) doc(r *rand.Rand) *D {
	if huge && g.maxN > 1000 {
		return g.hugeDoc(r)
	}
	for {
		var d *D
		switch r.Intn(8) {
		case 0:
			d = g.str(r, border(r, g.maxN))
		case 1:
			d = dArr(border(r, g.maxN), g.leaves(r)...)
		case 2:
			d = dObj(0, border(r, g.maxN), g.key(r), g.leaves(r)...)
		case 3:
			u := g.str(r, border(r, g.maxN))
			if cycle(u.S, u.N) == "___jnid_" { // the library's own
				continue
			}
			d = dKey(u.S, u.N, g.leaf(r))
		case 4, 5:
			d = dNest(border(r, g.maxN), g.levels(r), g.leaf(r))
		case 6: // many of middling size
			d = dArr(border(r, 300), dObj(0, 1+r.Intn(20), g.key(r), g.leaves(r)...), g.str(r, 1+r.Intn(80)), dNest(1+r.Intn(80), g.levels(r), g.leaf(r)))
		default: // large ones in a large one
			d = dObj(0, 1+r.Intn(4), g.key(r), g.str(r, border(r, 1100)), dArr(border(r, 300), g.leaves(r)...), dNest(border(r, 300), g.levels(r), g.str(r, border(r, 300))))
		}
		if g.query && d.K != "obj" {
			d = dKey("top", 3, d)
		}
		if d.weight() < g.weight && (g.depth == 0 || depthOf(d) < g.depth) {
			return d
		}
	}
}

// ---------------------------------------------------------------------

// sc is the record of one case.
type sc struct {
	ds, obs, eqs L
}

func (s *sc) add(d *D) int {
	s.ds = append(s.ds, d.enc())
	return len(s.ds)
}
func (s *sc) text(how string, i int, t string)     { s.obs = append(s.obs, L{how, i, BS(t)}) }
func (s *sc) doc(how string, i int, d JO, e error) { s.text(how, i, shown(d, e)) }
func (s *sc) equal(how string, i, j int, b bool)   { s.eqs = append(s.eqs, L{how, i, j, b}) }
func (s *sc) yes(how string, b bool)               { s.equal(how, 1, 1, b) }
func (s *sc) rec() M {
	if s.ds == nil {
		s.add(dVal(&V{T: 'n'}))
	}
	if s.obs == nil {
		s.obs = L{}
	}
	if s.eqs == nil {
		s.eqs = L{}
	}
	return M{"k": "scale", "ds": s.ds, "obs": s.obs, "eqs": s.eqs}
}

func shown(d JO, err error) string {
	if err != nil || d == nil {
		return "error"
	}
	return d.String()
}

func reparsed(t string) string { return shown(jsonutils.ParseString(t)) }

// spaced writes a document with white space and escapes of its own.
func spaced(r *rand.Rand, v *V, b *bytes.Buffer) {
	ws := func() {
		if r.Intn(3) == 0 {
			b.WriteString([]string{" ", "\n", "\t", "\r\n", "  ", cycle(" ", border(r, 70))}[r.Intn(6)])
		}
	}
	str := func(s string) {
		esc := r.Intn(3) == 0
		b.WriteByte('"')
		for _, c := range s {
			switch {
			case c == '"' || c == '\\':
				b.WriteByte('\\')
				b.WriteRune(c)
			case c >= 0x10000 && esc:
				c -= 0x10000
				fmt.Fprintf(b, "\\u%04x\\u%04X", 0xd800+(c>>10), 0xdc00+(c&0x3ff))
			case c < 32 || esc:
				fmt.Fprintf(b, "\\u%04x", c)
			default:
				b.WriteRune(c)
			}
		}
		b.WriteByte('"')
	}
	ws()
	switch v.T {
	case 's':
		str(v.S)
	case 'a':
		b.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				b.WriteByte(',')
			}
			spaced(r, x, b)
		}
		ws()
		b.WriteByte(']')
	case 'o':
		b.WriteByte('{')
		for i, p := range r.Perm(len(v.O)) {
			if i > 0 {
				b.WriteByte(',')
			}
			ws()
			str(v.O[p].K)
			ws()
			b.WriteByte(':')
			spaced(r, v.O[p].V, b)
		}
		ws()
		b.WriteByte('}')
	default:
		b.WriteString(build(r, v).String())
	}
	ws()
}

// gathered joins documents into an array.
func gathered(ds []JO, err error) (JO, error) { return jsonutils.NewArray(ds...), err }

var wide = &dcfg{maxN: 10001, weight: 24000}
var wideUtf = &dcfg{utf: true, maxN: 10001, weight: 24000}
var wideYaml = &dcfg{depth: 300, utf: true, yaml: true, maxN: 2100, weight: 16000}
var wideQuery = &dcfg{query: true, maxN: 1100, weight: 9000}

func scaled(prop string, quick, thorough int, fn func(r *rand.Rand, s *sc)) {
	checks["scale"+prop] = func(c *Ctx) {
		for n := c.Scale(quick, thorough); n > 0; n-- {
			n := n
			c.Case("large", func(r *rand.Rand) M {
				s := &sc{}
				huge = n%30 == 5
				defer func() { huge = false }()
				fn(r, s)
				return s.rec()
			})
		}
	}
}

func init() {
	scaled("C01", 60, 600, func(r *rand.Rand, s *sc) {
		d := (&dcfg{maxN: 10001, weight: 24000, depth: 300}).doc(r)
		t := build(r, d.expand()).String()
		if n := border(r, 10001); r.Intn(3) == 0 {
			t = cycle([]string{"[", "{\"a\":", "[{a:", "{a:[", "\"", "{\"___jnid_\":1,a:[<1>,", "[[],", "{a:'b',"}[r.Intn(8)], n)
		}
		switch r.Intn(3) {
		case 0:
			t = t[:r.Intn(len(t)+1)]
		case 1:
			i := r.Intn(len(t) + 1)
			t = t[:i] + wide.unit(r) + t[i:]
		}
		b := exact([]byte(t))
		o, err := jsonutils.Parse(b)
		s.yes("value-or-error", (o == nil) != (err == nil))
		exercise(o)
		if len(t) < 2000 || err == nil { // every open bracket is a fresh start
			jsonutils.ParseJsonStreams(b)
		}
		o, err = jsonutils.ParseQueryString(t)
		s.yes("query-value-or-error", (o == nil) != (err == nil))
		exercise(o)
		if len(t) < 3000 {
			o, err = jsonutils.ParseYAML(t)
			s.yes("yaml-value-or-error", (o == nil) != (err == nil))
		}
	})
	scaled("C02", 80, 1000, func(r *rand.Rand, s *sc) {
		d := wide.doc(r)
		i := s.add(d)
		x := build(r, d.expand())
		s.text("compact", i, x.String())
		s.text("parsed-back", i, reparsed(x.String()))
	})
	scaled("C03", 80, 1000, func(r *rand.Rand, s *sc) {
		d := wideUtf.doc(r)
		i := s.add(d)
		v := d.expand()
		for k := 0; k < 2; k++ {
			var b bytes.Buffer
			spaced(r, v, &b)
			o, err := jsonutils.Parse(exact(b.Bytes()))
			s.doc("standard-text", i, o, err)
		}
	})
	scaled("C04", 80, 1000, func(r *rand.Rand, s *sc) {
		d := wide.doc(r)
		if d.K == "val" {
			d = dArr(1, d)
		}
		i := s.add(d)
		t := build(r, d.expand()).String()
		s.text("relaxed", i, reparsed(relaxed(r, t)))
		for k := 0; k < 6; k++ {
			cut := 1 + r.Intn(len(t)-1)
			if k < 2 {
				cut = len(t) - 1 - k
			}
			if cut < 1 {
				cut = 1
			}
			o, err := jsonutils.Parse(exact([]byte(t[:cut])))
			s.yes("cut-text-refused", err != nil && o == nil)
		}
	})
	scaled("C05", 60, 700, func(r *rand.Rand, s *sc) {
		g := &dcfg{maxN: 4097, weight: 5000}
		var ds []*D
		var b bytes.Buffer
		var at []int
		n := 1 + r.Intn(6)
		if r.Intn(3) == 0 {
			n = border(r, 1025)
			g = &dcfg{maxN: 30, weight: 40}
		}
		for len(ds) < n {
			d := g.doc(r)
			if d.K == "str" || d.K == "val" {
				d = dArr(1, d)
			}
			ds = append(ds, d)
			b.WriteString([]string{"", " ", "\n", "data: ", cycle("x", border(r, 300)), ",", ";;"}[r.Intn(7)])
			at = append(at, b.Len())
			b.WriteString(build(r, d.expand()).String())
			at = append(at, b.Len())
		}
		all := s.add(dArr(n, ds...))
		in := exact(b.Bytes())
		o, err := gathered(jsonutils.ParseJsonStreams(in))
		s.doc("stream", all, o, err)
		var found []JO
		for k := 0; k < n; k++ {
			o, next, err := jsonutils.ParseStream(in, at[2*k])
			if err != nil || next != at[2*k+1] {
				s.yes("position", false)
			}
			if err != nil {
				continue
			}
			found = append(found, o)
		}
		s.doc("at-offsets", all, jsonutils.NewArray(found...), nil)
		s.yes("position", true)
	})
	scaled("C06", 50, 500, func(r *rand.Rand, s *sc) {
		d := wideYaml.doc(r)
		i := s.add(d)
		x := build(r, d.expand())
		p := x.PrettyString()
		s.text("indented", i, reparsed(p))
		s.text("no-blanks", i, squeezed(p))
		o, err := jsonutils.ParseYAML(x.YAMLString())
		s.doc("yaml", i, o, err)
		if d.K != "key" || len(x.String()) < 1000 { // YAML has a limit on unmarked keys
			o, err = jsonutils.ParseYAML(x.String())
			s.doc("json-as-yaml", i, o, err)
			o, err = jsonutils.ParseYAML(p)
			s.doc("indented-as-yaml", i, o, err)
		}
	})
	scaled("C07", 80, 1000, func(r *rand.Rand, s *sc) {
		g := &dcfg{maxN: 2100, weight: 16000}
		if r.Intn(3) > 0 { // an object set in some order
			d := dObj(r.Intn(50), border(r, 1100), g.key(r), g.leaves(r)...)
			i := s.add(d)
			x := jsonutils.NewDict()
			v := d.expand()
			for _, k := range r.Perm(len(v.O)) {
				if r.Intn(5) == 0 {
					x.Set(v.O[k].K, jsonutils.NewString("before"))
				}
				if r.Intn(5) == 0 {
					x.Set(v.O[k].K+"~", jsonutils.JSONTrue)
				}
				x.Set(v.O[k].K, build(r, v.O[k].V))
			}
			for _, k := range r.Perm(len(v.O)) {
				if y := v.O[k].K + "~"; x.Contains(y) {
					s.eqs = append(s.eqs, L{"removed", 1, 1, x.Remove(y)})
				}
			}
			s.text("text", i, x.String())
			s.yes("size", x.Size() == d.N && x.Length() == d.N && len(x.SortedKeys()) == d.N)
			keys := x.SortedKeys()
			y := jsonutils.NewDict()
			for k := range v.O {
				if k >= len(keys) || keys[k] != v.O[k].K {
					s.yes("key-list", false)
				}
				e, err := x.Get(v.O[k].K)
				if err == nil {
					y.Set(v.O[k].K, e)
				}
			}
			s.text("lookups", i, y.String())
			m, err := x.GetMap()
			s.yes("map-view", err == nil && len(m) == d.N)
			s.text("map", i, jsonutils.Marshal(m).String())
			return
		}
		d := dArr(border(r, 2100), g.leaves(r)...)
		i := s.add(d)
		x := jsonutils.NewArray()
		v := d.expand()
		for k, e := range v.A {
			if r.Intn(6) == 0 {
				x.Add(jsonutils.JSONNull)
				x.SetAt(k, build(r, e))
			} else {
				x.Add(build(r, e))
			}
		}
		s.text("appended", i, x.String())
		y := jsonutils.NewArray()
		for k := range v.A {
			e, err := x.GetAt(k)
			if err == nil {
				y.Add(e)
			}
		}
		s.text("element-by-element", i, y.String())
		s.yes("size", x.Size() == d.N && x.Length() == d.N)
		z := jsonutils.NewArray()
		for _, k := range []int{0, 1} {
			h := d.N / 2
			part := dArr(h, d.Ds...)
			if k == 1 {
				part = dArr(d.N, d.Ds...)
			}
			pv := part.expand().A
			if k == 1 {
				pv = pv[h:]
			}
			var es []JO
			for _, e := range pv {
				es = append(es, build(r, e))
			}
			z.Add(es...)
		}
		s.text("appended-in-halves", i, z.String())
	})
	scaled("C08", 60, 700, func(r *rand.Rand, s *sc) {
		n := border(r, 2100)
		ls := []level{{key: "a"}, {key: "b"}, {key: wide.key(r)}}[:1+r.Intn(3)]
		leaf := wide.leaf(r)
		i, li := s.add(dNest(n, ls, leaf)), s.add(leaf)
		var keys []string
		for k := 0; k < n; k++ {
			keys = append(keys, ls[k%len(ls)].key)
		}
		x := jsonutils.NewDict()
		if r.Intn(2) == 0 {
			x.Set(keys[0], jsonutils.JSONNull)
		}
		s.yes("added", x.Add(build(r, leaf.expand()), keys...) == nil)
		s.text("created", i, x.String())
		o, err := x.Get(keys...)
		s.doc("get", li, o, err)
		s.yes("contains", x.Contains(keys...))
		half := keys[:n/2]
		o, err = x.Get(half...)
		if err == nil {
			o, err = o.Get(keys[n/2:]...)
		}
		s.doc("get-in-two", li, o, err)
		s.yes("contains-no-more", !x.Contains(append(append([]string{}, keys...), "zz")...))
		// many members at one place
		d := dObj(0, border(r, 600), "k", wide.leaves(r)...)
		i = s.add(dNest(2, []level{{key: "p"}, {key: "q"}}, d))
		v := d.expand()
		y := jsonutils.NewDict()
		for _, k := range r.Perm(len(v.O)) {
			y.Add(build(r, v.O[k].V), "p", "q", v.O[k].K)
		}
		s.text("gathered-under-a-path", i, y.String())
	})
	scaled("C09", 60, 700, func(r *rand.Rand, s *sc) {
		n := border(r, 1100)
		ls := []level{{key: "ab"}, {key: "Cd"}, {key: "éK"}}[:1+r.Intn(3)]
		leaf := wide.leaf(r)
		s.add(dNest(n, ls, leaf))
		li := s.add(leaf)
		x := build(r, dNest(n, ls, leaf).expand())
		var keys []string
		for k := 0; k < n; k++ {
			keys = append(keys, swapCase(r, ls[k%len(ls)].key))
		}
		o, err := x.GetIgnoreCases(keys...)
		s.doc("get", li, o, err)
		s.yes("contains", x.ContainsIgnoreCases(keys...))
		// every other spelling goes, everything else stays
		d := dObj(0, border(r, 600), "key", wide.leaves(r)...)
		i := s.add(d)
		v := d.expand()
		y := build(r, v).(*jsonutils.JSONDict)
		for k := 0; k < 5; k++ {
			w := "gone" + strconv.Itoa(r.Intn(1000))
			n := 0
			for j := 1 + r.Intn(20); j > 0; j-- {
				z := swapCase(r, w)
				if !y.Contains(z) {
					n++
				}
				y.Set(z, jsonutils.JSONTrue)
			}
			s.yes("removed", y.RemoveIgnoreCase(w))
			s.yes("nothing-left", !y.RemoveIgnoreCase(w))
		}
		s.text("others-stay", i, y.String())
		k := v.O[r.Intn(len(v.O))]
		e, err := y.GetIgnoreCases(swapCase(r, k.K))
		s.yes("found", err == nil && e.String() == build(r, k.V).String())
	})
	scaled("C10", 60, 700, func(r *rand.Rand, s *sc) {
		d := dArr(border(r, 2100), wide.leaves(r)...)
		i := s.add(d)
		x := build(r, d.expand())
		y, z := jsonutils.NewArray(), jsonutils.NewArray()
		w := jsonutils.NewDict()
		w.Add(x, "p", "q")
		for k := 0; k < d.N; k++ {
			if e, err := x.GetAt(k); err == nil {
				y.Add(e)
			}
			if e, err := w.GetAt(k-d.N, "p", "q"); err == nil {
				z.Add(e)
			}
		}
		s.text("from-the-front", i, y.String())
		s.text("from-the-end", i, z.String())
		for _, k := range []int{d.N, d.N + 1, -d.N - 1, 1 << 40, -1 << 40} {
			_, err := x.GetAt(k)
			s.yes("out-of-range", err != nil)
		}
		es, err := x.GetArray()
		s.yes("all", err == nil && len(es) == d.N)
		s.doc("array", i, jsonutils.NewArray(es...), nil)
		// long texts of scalars
		t := wide.str(r, border(r, 10001))
		i = s.add(t)
		str, err := build(r, t.expand()).GetString()
		s.yes("string", err == nil)
		s.text("string", i, jsonutils.NewString(str).String())
		zeros := cycle("0", border(r, 1100))
		num, err := jsonutils.NewString(zeros + "12").Int()
		s.yes("padded-number", err == nil && num == 12)
		f, err := jsonutils.NewString("2.5" + zeros).Float()
		s.yes("padded-float", err == nil && f == 2.5)
	})
	scaled("C11", 60, 700, func(r *rand.Rand, s *sc) {
		d := wide.doc(r)
		i := s.add(d)
		x := build(r, d.expand())
		c := jsonutils.DeepCopy(x)
		s.text("copy", i, c.String())
		spoil(r, x)
		s.text("copy-after-edits", i, c.String())
		o := dObj(0, border(r, 1100), "k", wide.leaves(r)...)
		i = s.add(o)
		y := build(r, o.expand()).(*jsonutils.JSONDict)
		z := y.Copy()
		y.Set("k00000", jsonutils.NewString("new"))
		y.Remove(o.keyOf(o.N - 1))
		y.Set("zz", jsonutils.JSONTrue)
		s.text("shallow-copy", i, z.String())
		lo := r.Intn(o.N)
		hi := lo + r.Intn(o.N-lo)
		part := dObj(lo, hi-lo, "k", o.Ds...)
		i = s.add(part)
		var in, out []string
		for k := 0; k < o.N; k++ {
			if k >= lo && k < hi {
				in = append(in, o.keyOf(k))
			} else {
				out = append(out, o.keyOf(k))
			}
		}
		r.Shuffle(len(in), func(a, b int) { in[a], in[b] = in[b], in[a] })
		r.Shuffle(len(out), func(a, b int) { out[a], out[b] = out[b], out[a] })
		s.text("includes", i, z.CopyIncludes(in...).String())
		s.text("excludes", i, z.CopyExcludes(out...).String())
	})
	scaled("C12", 60, 700, func(r *rand.Rand, s *sc) {
		n := 2 + border(r, 1100)
		k := r.Intn(n)
		m := n - k + border(r, 600)
		ds := wide.leaves(r)
		a, b := dObj(0, n, "k", ds...), dObj(k, m, "k", ds...)
		ia, ib := s.add(a), s.add(b)
		x, y := build(r, a.expand()).(*jsonutils.JSONDict), build(r, b.expand()).(*jsonutils.JSONDict)
		only, differ, same, other := jsonutils.Diff(x, y)
		s.text("only-first", s.add(dObj(0, k, "k", ds...)), only.String())
		s.text("differ", s.add(dVal(&V{T: 'o'})), differ.String())
		s.text("same", s.add(dObj(k, n-k, "k", ds...)), same.String())
		s.text("only-second", s.add(dObj(n, m-n+k, "k", ds...)), other.String())
		s.text("first-stays", ia, x.String())
		s.text("second-stays", ib, y.String())
		all := s.add(dObj(0, k+m, "k", ds...))
		z := x.Copy()
		z.Update(y)
		s.text("merged", all, z.String())
		z = y.Copy()
		z.UpdateDefault(x)
		s.text("merged-as-default", all, z.String())
		// members that all differ
		w := build(r, dObj(0, n, "k", dVal(&V{T: 'b', B: true})).expand()).(*jsonutils.JSONDict)
		u := build(r, dObj(0, n, "k", dVal(&V{T: 'b'})).expand()).(*jsonutils.JSONDict)
		_, differ, _, _ = jsonutils.Diff(w, u)
		s.text("pairs", s.add(dObj(0, n, "k", dArr(2, dVal(&V{T: 'b', B: true}), dVal(&V{T: 'b'})))), differ.String())
		u.Update(w)
		s.text("won", s.add(dObj(0, n, "k", dVal(&V{T: 'b', B: true}))), u.String())
	})
	scaled("C13", 80, 1000, func(r *rand.Rand, s *sc) {
		d := wide.doc(r)
		e := nearly(r, d)
		i, j := s.add(d), s.add(e)
		x, y := build(r, d.expand()), build(r, e.expand())
		s.equal("near", i, j, x.Equals(y))
		s.equal("near-back", j, i, y.Equals(x))
		s.equal("again", i, i, x.Equals(build(r, d.expand())))
		s.equal("itself", i, i, x.Equals(x))
		if p, err := jsonutils.ParseString(y.String()); err == nil {
			s.equal("parsed", i, j, x.Equals(p))
			s.equal("parsed-same", j, j, p.Equals(y))
		}
		s.equal("copied", i, j, jsonutils.DeepCopy(y).Equals(x))
	})
	scaled("C14", 40, 400, func(r *rand.Rand, s *sc) {
		d := wideYaml.doc(r)
		i := s.add(d)
		x := build(r, d.expand())
		b := exact([]byte(x.String()))
		t := string(b)
		for k := 0; k < 2; k++ {
			s.text("text", i, x.String())
			o, err := jsonutils.Parse(b)
			s.doc("parsed", i, o, err)
			s.yes("bytes-stay", string(b) == t)
			exercise(x)
			s.text("marshal", i, jsonutils.Marshal(x).String())
		}
		s.text("stays", i, x.String())
	})
	scaled("C15", 60, 700, func(r *rand.Rand, s *sc) {
		d, v := typed(r)
		i := s.add(d)
		m := jsonutils.Marshal(v)
		s.text("marshalled", i, m.String())
		p := reflect.New(reflect.TypeOf(v))
		err := m.Unmarshal(p.Interface())
		s.yes("back", err == nil && reflect.DeepEqual(p.Elem().Interface(), v))
		q := reflect.New(reflect.TypeOf(v))
		o, err := jsonutils.ParseString(m.String())
		if err == nil {
			err = o.Unmarshal(q.Interface())
		}
		s.yes("back-through-text", err == nil && reflect.DeepEqual(q.Elem().Interface(), v))
	})
	scaled("C16", 50, 500, func(r *rand.Rand, s *sc) {
		type omit struct {
			Next *int   `json:"next"`
			V    int    `json:"v,omitzero"`
			W    string `json:"w"`
			X    string `json:"x,allowempty"`
			Y    []int  `json:"y"`
			Z    uint8  `json:"z,string"`
		}
		n := border(r, 1100)
		five := 5
		few := []omit{{}, {Next: &five}, {V: 7, W: "w"}, {Y: []int{1}, Z: 3, X: "x"}}
		texts := [][]string{
			{`{"x":"","z":"0"}`, `{"next":5,"x":"","z":"0"}`, `{"v":7,"w":"w","x":"","z":"0"}`, `{"x":"x","y":[1],"z":"3"}`},
			{`{"next":null,"v":0,"w":"","x":"","y":null,"z":"0"}`, `{"next":5,"v":0,"w":"","x":"","y":null,"z":"0"}`,
				`{"next":null,"v":7,"w":"w","x":"","y":null,"z":"0"}`, `{"next":null,"v":0,"w":"","x":"x","y":[1],"z":"3"}`}}
		var v []omit
		m := map[string]*omit{}
		d := dObj(0, n, "k")
		for i := 0; i < n; i++ {
			v = append(v, few[i%4])
			m[d.keyOf(i)] = &few[i%4]
		}
		for all, ts := range texts {
			d := dObj(0, n, "k")
			for _, t := range ts {
				o, err := jsonutils.ParseString(t)
				must(err)
				d.Ds = append(d.Ds, dVal(decV(jsonRound(Enc(o)))))
			}
			how := []string{"Marshal", "MarshalAll"}[all]
			f := []func(interface{}) JO{func(x interface{}) JO { return jsonutils.Marshal(x) }, jsonutils.MarshalAll}[all]
			s.text(how, s.add(dArr(n, d.Ds...)), f(v).String())
			s.text(how+"-map", s.add(d), f(m).String())
			s.text(how+"-int-keys", s.add(&D{K: "obj", From: 10000, N: n, Width: 5, Ds: d.Ds}), f(byNumber(v)).String())
		}
	})
	scaled("C17", 30, 300, func(r *rand.Rand, s *sc) {
		n := 1 + border(r, 200)
		var fs []reflect.StructField
		order := r.Perm(n)
		for _, i := range order {
			t := fmt.Sprintf(`json:"k%05d"`, i)
			if i > 0 { // one chain, or a tree
				by := i - 1
				if r.Intn(4) == 0 {
					by = r.Intn(i)
				}
				t += fmt.Sprintf(` yunion-deprecated-by:"k%05d"`, by)
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("K%05d", i), Type: reflect.TypeOf(""), Tag: reflect.StructTag(t)})
		}
		st := reflect.New(reflect.StructOf(fs))
		st.Elem().FieldByName("K00000").SetString("the value")
		d := dObj(0, n, "k", dText("the value"))
		i := s.add(d)
		s.text("written", i, jsonutils.Marshal(st.Interface()).String())
		to := reflect.New(st.Elem().Type())
		in := jsonutils.NewDict()
		in.Set(d.keyOf(n-1), jsonutils.NewString("the value"))
		s.yes("read", in.Unmarshal(to.Interface()) == nil)
		s.yes("reaches-the-end", to.Elem().FieldByName("K00000").String() == "the value")
		s.text("read-then-written", i, jsonutils.Marshal(to.Interface()).String())
	})
	scaled("C18", 50, 500, func(r *rand.Rand, s *sc) {
		m, k := 1+r.Intn(4), border(r, 600)
		if r.Intn(2) == 0 {
			m, k = border(r, 200), 1+r.Intn(4)
		}
		tail := r.Intn(3)
		var v []*chain
		for i := 0; i < m; i++ {
			first := &chain{}
			x := first
			for j := 1; j < k; j++ {
				x = &chain{Next: x}
			}
			first.Next = x
			for j := 0; j < tail; j++ { // a way into the loop
				x = &chain{Next: x}
			}
			v = append(v, x)
		}
		doc := jsonutils.Marshal(v)
		t := doc.String()
		ids := nidReg.FindAllStringSubmatch(t, -1)
		refs := refReg.FindAllStringSubmatch(t, -1)
		seen, named := map[string]bool{}, map[string]bool{}
		for _, x := range ids {
			s.yes("no-id-twice", !seen[x[1]])
			seen[x[1]] = true
		}
		var ds []*D
		for _, x := range refs {
			named[x[1]] = true
			ds = append(ds, &D{K: "ring", From: tail, N: k, S: x[1]})
		}
		s.yes("a-reference-for-each-loop", len(ds) == m && len(named) == m)
		// ids that nothing refers to say nothing
		plain := func(t string) string {
			return nidReg.ReplaceAllStringFunc(t, func(x string) string {
				if named[nidReg.FindStringSubmatch(x)[1]] {
					return x
				}
				return ""
			})
		}
		if len(ds) == m {
			i := s.add(dArr(m, ds...))
			s.text("text", i, plain(t))
			s.yes("again", jsonutils.Marshal(v).String() == t)
			s.text("copied", i, plain(jsonutils.DeepCopy(doc).String()))
		}
		parsed, err := jsonutils.ParseString(t)
		s.yes("parsed", err == nil)
		for _, from := range []JO{doc, parsed} {
			var w []*chain
			if from == nil {
				continue
			}
			s.yes("restored", from.Unmarshal(&w) == nil && len(w) == m)
			for _, x := range w {
				n := map[*chain]bool{}
				for ; x != nil && !n[x]; x = x.Next {
					n[x] = true
				}
				s.yes("one-loop-again", x != nil && len(n) == k+tail)
				for j := 0; j < k && x != nil; j++ {
					delete(n, x)
					x = x.Next
				}
				s.yes("of-that-length", len(n) == tail)
			}
		}
		// shared, but on no loop
		one := &chain{V: 3}
		all := make([]*chain, border(r, 600))
		for i := range all {
			all[i] = one
		}
		shared := s.add(dArr(len(all), dVal(&V{T: 'o', O: []KV{{"v", &V{T: 'i', I: 3}}}})))
		s.text("shared", shared, jsonutils.Marshal(all).String())
	})
	scaled("C19", 50, 500, func(r *rand.Rand, s *sc) {
		n := border(r, 2100)
		// numbers as texts, and back
		num := dVal(&V{T: 'i', I: int64(r.Intn(100000))})
		txt := dText(strconv.FormatInt(num.V.I, 10))
		ints, strs := s.add(dArr(n, num)), s.add(dArr(n, txt))
		var a []string
		s.yes("to-texts", build(r, dArr(n, num).expand()).Unmarshal(&a) == nil)
		s.text("texts", strs, jsonutils.Marshal(a).String())
		var b []int
		s.yes("to-numbers", build(r, dArr(n, txt).expand()).Unmarshal(&b) == nil)
		s.text("numbers", ints, jsonutils.Marshal(b).String())
		var m map[string]string
		mo := dObj(0, n, "k", num)
		s.yes("to-map", build(r, mo.expand()).Unmarshal(&m) == nil && len(m) == n)
		s.text("map", s.add(dObj(0, n, "k", txt)), jsonutils.MarshalAll(m).String())
		// composites as text
		d := wide.doc(r)
		i := s.add(d)
		x := build(r, d.expand())
		if d.K != "str" && d.K != "val" {
			var t string
			s.yes("to-text", x.Unmarshal(&t) == nil)
			s.text("text", i, t)
		}
		arr := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(0)))
		s.yes("to-array", build(r, dArr(n, num).expand()).Unmarshal(arr.Interface()) == nil)
		s.text("array", ints, jsonutils.MarshalAll(arr.Elem().Interface()).String())
	})
	scaled("C20", 50, 500, func(r *rand.Rand, s *sc) {
		n, k := 2+border(r, 1100), 0
		k = r.Intn(n)
		m := n - k + border(r, 300)
		a, b := map[string]int{}, jsonutils.NewDict()
		old, now := dVal(&V{T: 'i', I: 1}), dVal(&V{T: 'i', I: 2})
		od := dObj(0, n, "k", old)
		for i := 0; i < n; i++ {
			a[od.keyOf(i)] = 1
		}
		for i := k; i < k+m; i++ {
			b.Set(od.keyOf(i), jsonutils.NewInt(2))
		}
		var ds []*D
		for i := 0; i < k+m; i++ {
			if i < k {
				ds = append(ds, old)
			} else {
				ds = append(ds, now)
			}
		}
		all := s.add(dObj(0, k+m, "k", ds...))
		s.yes("overlaid", b.Unmarshal(&a) == nil)
		s.text("map", all, jsonutils.Marshal(a).String())
		// a struct of many fields
		n = 2 + border(r, 300)
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("K%05d", i), Type: reflect.TypeOf(0), Tag: reflect.StructTag(fmt.Sprintf(`json:"k%05d"`, i))})
		}
		st := reflect.New(reflect.StructOf(fs))
		c := jsonutils.NewDict()
		bad := 0
		ds = nil
		for i := 0; i < n; i++ {
			st.Elem().Field(i).SetInt(1)
			switch r.Intn(4) {
			case 0:
				c.Set(od.keyOf(i), jsonutils.NewInt(2))
				ds = append(ds, now)
			case 1:
				if r.Intn(3) == 0 {
					c.Set(od.keyOf(i), jsonutils.NewString("no number"))
					bad++
				}
				ds = append(ds, old)
			default:
				ds = append(ds, old)
			}
		}
		err := c.Unmarshal(st.Interface())
		s.yes("error-if-bad", (err != nil) == (bad > 0))
		if err != nil {
			_ = err.Error()
		}
		s.text("struct", s.add(dObj(0, n, "k", ds...)), jsonutils.Marshal(st.Interface()).String())
	})
	scaled("C21", 50, 500, func(r *rand.Rand, s *sc) {
		n := border(r, 1100)
		// a method at every element, and far in
		var v []labelled
		m := map[string]*labelled{}
		d := dObj(0, n, "k", dKey("t", 1, dVal(&V{T: 'i', I: 1})), dKey("t", 1, dVal(&V{T: 'i', I: 2})))
		for i := 0; i < n; i++ {
			v = append(v, labelled{1 + i%2})
			m[d.keyOf(i)] = &labelled{1 + i%2}
		}
		list, obj := s.add(dArr(n, d.Ds...)), s.add(d)
		s.text("elements", list, jsonutils.Marshal(v).String())
		s.text("entries", obj, jsonutils.Marshal(m).String())
		var w []labelled
		var u map[string]*labelled
		s.yes("elements-back", build(r, dArr(n, d.Ds...).expand()).Unmarshal(&w) == nil && reflect.DeepEqual(v, w))
		s.yes("entries-back", build(r, d.expand()).Unmarshal(&u) == nil && reflect.DeepEqual(m, u))
		// a hook for each
		var h []counted
		ran := 0
		hooksRun = &ran
		s.yes("hooks", build(r, dArr(n, dKey("n", 1, dVal(&V{T: 'i', I: 1}))).expand()).Unmarshal(&h) == nil && ran == n && len(h) == n)
		ran = 0
		var g counted
		s.yes("hooks-far-in", build(r, dNest(n, []level{{key: "next"}}, dVal(&V{T: 'o'})).expand()).Unmarshal(&g) == nil && ran == n+1)
		depth := 0
		for x := &g; x != nil; x = x.Next {
			s.yes("hook-after-members", x.Below == n-depth)
			depth++
		}
	})
	scaled("C22", 60, 600, func(r *rand.Rand, s *sc) {
		d := wideQuery.doc(r)
		i := s.add(d)
		x := build(r, d.expand())
		o, err := jsonutils.ParseQueryString(x.QueryString())
		s.doc("back", i, o, err)
	})
	scaled("C23", 50, 500, func(r *rand.Rand, s *sc) {
		// parameters written by hand, in any order
		n := border(r, 1100)
		var ds []*D
		for k := 1 + r.Intn(3); k > 0; k-- {
			ds = append(ds, wideQuery.leaf(r))
		}
		var ps []string
		arr := r.Intn(2) == 0
		deep := strings.Repeat("d.", r.Intn(border(r, 65)))
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("k%05d", i)
			if arr {
				k = strconv.Itoa(i)
			}
			ps = append(ps, deep+"top."+k+"="+ds[i%len(ds)].S)
		}
		r.Shuffle(n, func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		d := dObj(0, n, "k", ds...)
		if arr {
			d = dArr(n, ds...)
		}
		d = dKey("top", 3, d)
		if len(deep) > 0 {
			d = dNest(len(deep)/2, []level{{key: "d"}}, d)
		}
		i := s.add(d)
		o, err := jsonutils.ParseQueryString(strings.Join(ps, "&"))
		s.doc("decoded", i, o, err)
		// one parameter over and over
		var q []string
		for k := 0; k < n; k++ {
			q = append(q, "r="+ds[k%len(ds)].S)
		}
		if n > 1 {
			o, err = jsonutils.ParseQueryString(strings.Join(q, "&"))
			s.doc("repeated", s.add(dKey("r", 1, dArr(n, ds...))), o, err)
		}
	})
	scaled("C25", 60, 700, func(r *rand.Rand, s *sc) {
		d := wide.doc(r)
		i := s.add(d)
		x := build(r, d.expand())
		p := x.Interface()
		s.text("marshalled", i, jsonutils.MarshalAll(p).String())
		s.yes("zero", x.IsZero() == (d.K == "val" && x.IsZero()))
		switch y := x.(type) {
		case *jsonutils.JSONArray:
			n := d.N
			if d.K == "nest" {
				n = 1
			}
			l, ok := p.([]interface{})
			s.yes("size", y.Size() == n && y.Length() == n && ok && len(l) == n)
		case *jsonutils.JSONDict:
			n := d.N
			if d.K != "obj" {
				n = 1
			}
			m, ok := p.(map[string]interface{})
			s.yes("size", y.Size() == n && y.Length() == n && ok && len(m) == n)
		case *jsonutils.JSONString:
			s.yes("size", y.Length() == len(d.expand().S))
		}
	})
	scaled("C26", 50, 500, func(r *rand.Rand, s *sc) {
		n := border(r, 1100)
		var ds []*D
		for k := 1 + r.Intn(3); k > 0; k-- {
			ds = append(ds, dText(wide.unit(r)))
		}
		arr := dArr(n, ds...)
		i := s.add(arr)
		x := build(r, arr.expand())
		l, err := jsonutils.GetStringArray(x)
		s.doc("list", i, jsonutils.NewStringArray(l), err)
		w := jsonutils.NewDict()
		w.Set("l", x)
		s.doc("of-array", i, jsonutils.NewStringArray(jsonutils.GetQueryStringArray(w, "l")), nil)
		nums, pre := jsonutils.NewDict(), jsonutils.NewDict()
		for k, e := range arr.expand().A {
			nums.Set(strconv.Itoa(k), build(r, e))
			pre.Set("p."+strconv.Itoa(k), build(r, e))
		}
		w.Set("l", nums)
		s.doc("of-numbers", i, jsonutils.NewStringArray(jsonutils.GetQueryStringArray(w, "l")), nil)
		s.doc("of-prefix", i, jsonutils.NewArray(jsonutils.GetArrayOfPrefix(pre, "p")...), nil)
		var keys []string
		for k := 0; k < n; k++ {
			keys = append(keys, "p."+strconv.Itoa(k))
		}
		s.yes("fields-there", jsonutils.CheckRequiredFields(pre, keys) == nil)
		s.yes("fields-missing", jsonutils.CheckRequiredFields(pre, append(keys, "p."+strconv.Itoa(n))) != nil)
	})
}

func depthOf(d *D) int {
	m := 0
	for _, x := range d.Ds {
		if n := depthOf(x); n > m {
			m = n
		}
	}
	switch d.K {
	case "nest":
		return m + d.N
	case "val", "str":
		return 1
	}
	return m + 1
}

// relaxed puts a comma before some closing brackets outside strings.
func relaxed(r *rand.Rand, t string) string {
	var b bytes.Buffer
	in := false
	var last byte
	for i := 0; i < len(t); i++ {
		c := t[i]
		switch {
		case in && c == '\\':
			b.WriteByte(c)
			i++
			c = t[i]
		case c == '"':
			in = !in
		case !in && (c == ']' || c == '}') && last != '[' && last != '{' && r.Intn(2) == 0:
			b.WriteByte(',')
		}
		b.WriteByte(c)
		last = t[i]
	}
	return b.String()
}

// squeezed leaves out the white space outside strings.
func squeezed(t string) string {
	var b bytes.Buffer
	in := false
	for i := 0; i < len(t); i++ {
		c := t[i]
		switch {
		case in && c == '\\':
			b.WriteByte(c)
			i++
			c = t[i]
		case c == '"':
			in = !in
		case !in && (c == ' ' || c == '\n'):
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

// spoil edits a document at some place far in.
func spoil(r *rand.Rand, x JO) {
	for {
		switch v := x.(type) {
		case *jsonutils.JSONDict:
			ks := v.SortedKeys()
			if len(ks) > 0 && r.Intn(300) > 0 {
				if e, _ := v.Get(ks[r.Intn(len(ks))]); isDict(e) || isArr(e) {
					x = e
					continue
				}
			}
			for _, k := range ks {
				v.Set(k, jsonutils.NewString("spoiled"))
			}
			v.Set("spoiled", jsonutils.JSONTrue)
		case *jsonutils.JSONArray:
			if n := v.Length(); n > 0 && r.Intn(300) > 0 {
				if e, _ := v.GetAt(r.Intn(n)); isDict(e) || isArr(e) {
					x = e
					continue
				}
				for k := 0; k < n; k++ {
					v.SetAt(k, jsonutils.NewString("spoiled"))
				}
			}
			v.Add(jsonutils.JSONTrue)
		}
		return
	}
}

// nearly differs in one place at most.
func nearly(r *rand.Rand, d *D) *D {
	e := *d
	switch d.K {
	case "val":
		for {
			v := twin(r, d.V)
			if v.T == d.V.T || v.T != 'f' && d.V.T != 'f' { // 1.0 and 1 differ, with one text
				return dVal(v)
			}
		}
	case "str":
		if r.Intn(3) == 0 {
			e.N += r.Intn(3) - 1
			return &e
		}
		b := []byte(cycle(d.S, d.N))
		if len(b) > 0 {
			b[[]int{0, len(b) - 1, r.Intn(len(b))}[r.Intn(3)]] ^= byte(1 << uint(r.Intn(7)))
		}
		return dText(string(b))
	case "arr", "obj":
		if r.Intn(3) == 0 {
			if e.N += r.Intn(3) - 1; e.N < 1 {
				e.N = 1
			}
			return &e
		}
		var ds []*D
		for i := 0; i < d.N; i++ {
			ds = append(ds, d.Ds[i%len(d.Ds)])
		}
		i := []int{0, d.N - 1, r.Intn(d.N)}[r.Intn(3)]
		ds[i] = nearly(r, ds[i])
		e.Ds = ds
		return &e
	case "key":
		if r.Intn(2) == 0 && d.N > 1 {
			b := []byte(cycle(d.S, d.N))
			b[[]int{0, len(b) - 1, r.Intn(len(b))}[r.Intn(3)]] ^= byte(1 << uint(r.Intn(7)))
			e.S = string(b)
			return &e
		}
	case "nest":
		if r.Intn(3) == 0 {
			e.N += r.Intn(3) - 1
			return &e
		}
	}
	e.Ds = []*D{nearly(r, d.Ds[0])}
	return &e
}

type chain struct {
	Next *chain `json:"next"`
	V    int    `json:"v,omitzero"`
}
type labelled struct{ N int }

func (l labelled) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`{"t":%d}`, l.N)), nil }
func (l *labelled) UnmarshalJSON(b []byte) error {
	var x struct{ T int }
	err := json.Unmarshal(b, &x)
	l.N = x.T
	return err
}

var nidReg = regexp.MustCompile(`"___jnid_":(-?\d+),?`)
var refReg = regexp.MustCompile(`<(-?\d+)>`)

var hooksRun *int

type counted struct {
	Next  *counted `json:"next"`
	N     int      `json:"n"`
	Below int      `json:"-"`
}

func (h *counted) AfterUnmarshal() {
	*hooksRun++
	if h.Next != nil {
		h.Below = h.Next.Below + 1
	}
}

// byNumber is a map of the elements, by numbers of five digits.
func byNumber(list interface{}) interface{} {
	v := reflect.ValueOf(list)
	m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(0), v.Type().Elem()))
	for i := 0; i < v.Len(); i++ {
		m.SetMapIndex(reflect.ValueOf(10000+i), v.Index(i))
	}
	return m.Interface()
}

type lists []lists
type tree map[string]tree

// typed is a large Go value and the description of its document.
func typed(r *rand.Rand) (*D, interface{}) {
	n := border(r, 2100)
	switch r.Intn(9) {
	case 0:
		num := dVal(&V{T: 'i', I: genInt(r)})
		var v []int64
		for i := 0; i < n; i++ {
			v = append(v, num.V.I)
		}
		return dArr(n, num), v
	case 1:
		d := wide.str(r, border(r, 10001))
		return d, d.expand().S
	case 2:
		var v []string
		a, b := dText(wide.unit(r)), dText(wide.unit(r))
		for i := 0; i < n; i++ {
			v = append(v, []string{a.expand().S, b.expand().S}[i%2])
		}
		return dArr(n, a, b), v
	case 3:
		v := map[string]bool{}
		d := dObj(0, n, "key", dVal(&V{T: 'b', B: true}), dVal(&V{T: 'b'}))
		for i := 0; i < n; i++ {
			v[d.keyOf(i)] = i%2 == 0
		}
		return d, v
	case 4:
		n = 1 + n%5000 // every pointer is looked for among those before it
		v := &chain{V: 5}
		for i := 0; i < n; i++ {
			v = &chain{Next: v}
		}
		return dNest(n, []level{{key: "next"}}, dVal(&V{T: 'o', O: []KV{{"v", &V{T: 'i', I: 5}}}})), v
	case 5:
		n = 1 + n%1100
		v := lists{}
		for i := 0; i < n; i++ {
			v = lists{v}
		}
		return dNest(n, []level{{arr: true}}, dVal(&V{T: 'a'})), v
	case 6:
		v := make([][]float64, 0)
		m := 1 + r.Intn(20)
		for i := 0; i < n; i++ {
			var x []float64
			for k := 0; k < m; k++ {
				x = append(x, 0.25)
			}
			v = append(v, x)
		}
		if n*m > 8000 {
			return typed(r)
		}
		return dArr(n, dArr(m, dVal(&V{T: 'f', F: 0.25, Bit: 64}))), v
	case 7:
		n = 1 + n%300
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("K%05d", i), Type: reflect.TypeOf(""), Tag: reflect.StructTag(fmt.Sprintf(`json:"k%05d"`, i))})
		}
		st := reflect.New(reflect.StructOf(fs)).Elem()
		a := dText(wide.unit(r))
		for i := 0; i < n; i++ {
			st.Field(i).SetString(a.expand().S)
		}
		return dObj(0, n, "k", a), st.Interface()
	}
	v := make([]chain, n)
	for i := range v {
		v[i].V = 1 + i%3
	}
	var ds []*D
	for i := 1; i <= 3; i++ {
		ds = append(ds, dVal(&V{T: 'o', O: []KV{{"v", &V{T: 'i', I: int64(i)}}}}))
	}
	return dArr(n, ds...), v
}
