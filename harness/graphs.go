package main

// Graphs of structs linked by pointers (spec/JGraph.tla, Graph.tla).

import (
	"encoding/json"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"yunion.io/x/jsonutils"
)

func init() { checks["C18"] = c18 }

type gn1 struct {
	V int64           `json:"v"`
	A *gn1            `json:"a"`
	B *gn1            `json:"b"`
	L []*gn1          `json:"l"`
	M map[string]*gn1 `json:"m"`
}

type Gbase2 struct {
	C *gn2 `json:"c"`
}
type gn2 struct {
	Gbase2
	Z *ge2 `json:"z"`
	V int64
	A *gn2   `json:"a"`
	B **gn2  `json:"b"`
	L []*ge2 `json:"l"`
	M map[string]*gn2
}
type ge2 struct {
	To *gn2 `json:"to,allowempty"`
	Up *ge2
	V  int64           `json:"v"`
	L  *[]*gn2         `json:"l"`
	M  map[string]*ge2 `json:"m"`
}

type Gbase3 struct {
	C *gn3 `json:"c,omitzero"`
	D *ge3 `json:"0d"`
}
type gn3 struct {
	*Gbase3
	L  *[]*gn3 `json:"l"`
	V  int64   `json:"v"`
	X  ***ge3  `json:"x"`
	Aa *gn3    `json:"a"`
}
type ge3 struct {
	Gn *gn3 `json:"n"`
	V  int64
	L  []**gn3 `json:"l"`
	M  map[string]**ge3
}

// maps with keys of other types; no document can be unmarshalled into those that are not strings
type gn4 struct {
	V int64        `json:"v"`
	M map[int]*gn4 `json:"m"`
	B *gn4         `json:"b"`
	L []*gn4       `json:"l"`
}
type gn5 struct {
	V int64             `json:"v"`
	A *gn5              `json:"a"`
	M map[keyName]**gn5 `json:"m"`
	L []*gn5            `json:"l"`
}

var gfams = []map[string]reflect.Type{
	{"n": reflect.TypeOf(gn1{})},
	{"n": reflect.TypeOf(gn2{}), "e": reflect.TypeOf(ge2{})},
	{"n": reflect.TypeOf(gn3{}), "e": reflect.TypeOf(ge3{})},
	{"n": reflect.TypeOf(gn6{}), "e": reflect.TypeOf(ge6{})},
	{"n": reflect.TypeOf(gn7{})},
	{"n": reflect.TypeOf(gn8{}), "e": reflect.TypeOf(ge8{})},
	{"n": reflect.TypeOf(gn5{})},
	{"n": reflect.TypeOf(gn4{})},
	{"n": reflect.TypeOf(gn9{}), "e": reflect.TypeOf(ge9{})},
}

// fields against the order of their keys: most references come before the object they name
type gn6 struct {
	Z *gn6            `json:"z"`
	Y *ge6            `json:"y"`
	M map[string]*gn6 `json:"m"`
	L []*ge6          `json:"l"`
	C *gn6            `json:"c"`
	B *ge6            `json:"b"`
	V int64           `json:"v"`
	A *gn6            `json:"a"`
}
type ge6 struct {
	W *gn6            `json:"w"`
	M map[string]*ge6 `json:"m"`
	L []*gn6          `json:"l"`
	E *gn6            `json:"e"`
	D *ge6            `json:"d"`
	V int64           `json:"v"`
}

type gn7 struct { // gn1 the other way round
	M map[string]*gn7 `json:"m"`
	L []*gn7          `json:"l"`
	B *gn7            `json:"b"`
	A *gn7            `json:"a"`
	V int64           `json:"v"`
}

type gn8 struct { // gn6 the other way round
	A *gn8             `json:"a"`
	V int64            `json:"v"`
	B **ge8            `json:"b"`
	C *gn8             `json:"c"`
	L []*ge8           `json:"l"`
	M map[string]**gn8 `json:"m"`
	Y *ge8             `json:"y"`
	Z *gn8             `json:"z"`
}
type ge8 struct {
	V int64           `json:"v"`
	D *ge8            `json:"d"`
	E *gn8            `json:"e"`
	L []*gn8          `json:"l"`
	M map[string]*ge8 `json:"m"`
	W *gn8            `json:"w"`
}

// gTwin is the family whose fields have the same names in another order.
func gTwin(fam map[string]reflect.Type) map[string]reflect.Type {
	for _, pair := range [][2]interface{}{{gn1{}, gn7{}}, {gn6{}, gn8{}}} {
		for i := range pair {
			if fam["n"] != reflect.TypeOf(pair[i]) {
				continue
			}
			for _, t := range gfams {
				if t["n"] == reflect.TypeOf(pair[1-i]) {
					return t
				}
			}
		}
	}
	return nil
}

// a struct that is part of another one, at the same place, and pointed to as well
type gn9 struct {
	In ge9 `json:"in"`
	P  *ge9
	V  int64 `json:"v"`
	A  *gn9
	L  []*ge9          `json:"l"`
	M  map[string]*gn9 `json:"m"`
}
type ge9 struct {
	V int64 `json:"v"`
}

type gOne struct {
	name string
	to   int
}
type gNode struct {
	t   string
	v   int64
	one []gOne
	l   []int
	m   []gOne
}

func (n *gNode) enc() M {
	sort.Slice(n.one, func(i, j int) bool { return n.one[i].name < n.one[j].name })
	sort.Slice(n.m, func(i, j int) bool { return n.m[i].name < n.m[j].name })
	one, l, m := L{}, L{}, L{}
	for _, o := range n.one {
		if o.to != 0 {
			one = append(one, L{o.name, o.to})
		}
	}
	for _, x := range n.l {
		l = append(l, x)
	}
	for _, o := range n.m {
		m = append(m, L{BS(o.name), o.to})
	}
	return M{"t": n.t, "v": BS(strconv.FormatInt(n.v, 10)), "one": one, "l": l, "m": m}
}

func encGraph(g []*gNode) L {
	out := L{}
	for _, n := range g {
		out = append(out, n.enc())
	}
	return out
}

type gField struct {
	name  string
	kind  string // v one l m
	index []int
	elem  reflect.Type
	in    bool // the struct itself, not a pointer to it
}

func stripPtr(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t
}

// gFields lists the fields of a node's type.
func gFields(t reflect.Type, index []int) []gField {
	var out []gField
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		ix := append(append([]int{}, index...), i)
		if f.Anonymous {
			out = append(out, gFields(stripPtr(f.Type), ix)...)
			continue
		}
		name := strings.Split(f.Tag.Get("json"), ",")[0]
		if name == "" {
			name = strings.ToLower(f.Name)
		}
		g := gField{name: name, index: ix}
		switch st := stripPtr(f.Type); st.Kind() {
		case reflect.Int64:
			g.kind = "v"
		case reflect.Slice:
			g.kind, g.elem = "l", stripPtr(st.Elem())
		case reflect.Map:
			g.kind, g.elem = "m", stripPtr(st.Elem())
		default:
			g.kind, g.elem, g.in = "one", st, f.Type == st
		}
		out = append(out, g)
	}
	return out
}

// gAt is a field, nothing if it is in an embedded pointer that is nil; with make it is made.
func gAt(v reflect.Value, index []int, make bool) reflect.Value {
	for k, i := range index {
		if k > 0 && v.Kind() == reflect.Ptr {
			if v.IsNil() {
				if !make {
					return reflect.Value{}
				}
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	return v
}

// gPoint puts a pointer behind as many pointers as the target has.
func gPoint(t reflect.Type, p reflect.Value) reflect.Value {
	if t == p.Type() {
		return p
	}
	q := reflect.New(t.Elem())
	q.Elem().Set(gPoint(t.Elem(), p))
	return q
}

func gBuild(fam map[string]reflect.Type, g []*gNode) []reflect.Value {
	type gList struct {
		n *gNode
		l reflect.Value
	}
	var lists []gList
	ps := make([]reflect.Value, len(g))
	for i, n := range g {
		ps[i] = reflect.New(fam[n.t])
	}
	for i, n := range g {
		for _, f := range gFields(fam[n.t], nil) {
			for _, o := range n.one {
				if f.in && o.name == f.name {
					ps[o.to-1] = ps[i].Elem().FieldByIndex(f.index).Addr()
				}
			}
		}
	}
	for i, n := range g {
		for _, f := range gFields(fam[n.t], nil) {
			if f.in {
				continue
			}
			set := func(v reflect.Value) { gAt(ps[i].Elem(), f.index, true).Set(v) }
			ft := ps[i].Type().Elem().FieldByIndex(f.index).Type
			switch f.kind {
			case "v":
				set(reflect.ValueOf(n.v))
			case "one":
				for _, o := range n.one {
					if o.name == f.name && o.to > 0 {
						set(gPoint(ft, ps[o.to-1]))
					}
				}
			case "l":
				if len(n.l) == 0 {
					continue
				}
				st := stripPtr(ft)
				s := reflect.MakeSlice(st, len(n.l), len(n.l)+len(n.l)%2)
				for k, x := range n.l {
					if x > 0 {
						s.Index(k).Set(gPoint(st.Elem(), ps[x-1]))
					}
				}
				if ft.Kind() == reflect.Ptr {
					p := reflect.New(st)
					p.Elem().Set(s)
					s = p
					for _, q := range lists { // lists are shared, too
						if q.l.Type() == ft && reflect.DeepEqual(q.n.l, n.l) {
							s = q.l
						}
					}
					lists = append(lists, gList{n, s})
				}
				set(s)
			case "m":
				if len(n.m) == 0 {
					continue
				}
				m := reflect.MakeMap(ft)
				for _, o := range n.m {
					x := reflect.Zero(ft.Elem())
					if o.to > 0 {
						x = gPoint(ft.Elem(), ps[o.to-1])
					}
					k := reflect.ValueOf(o.name)
					if ft.Key().Kind() == reflect.Int {
						k = mapKey("int", o.name)
					}
					m.SetMapIndex(k.Convert(ft.Key()), x)
				}
				set(m)
			}
		}
	}
	return ps
}

// gFill leaves old nodes in a variable, where a graph to be read into it has nodes.
func gFill(r *rand.Rand, fam map[string]reflect.Type, g []*gNode, i int, p reflect.Value, depth int) {
	for _, f := range gFields(fam[g[i].t], nil) {
		v := gAt(p.Elem(), f.index, true)
		switch {
		case f.kind == "v":
			v.SetInt(int64(90 + depth))
		case f.kind == "one" && depth > 0:
			for _, o := range g[i].one {
				if o.name != f.name || o.to == 0 {
					continue
				}
				q := reflect.New(fam[g[o.to-1].t])
				if f.in {
					q = v.Addr()
				} else if r.Intn(3) == 0 {
					continue
				} else {
					v.Set(gPoint(v.Type(), q))
				}
				gFill(r, fam, g, o.to-1, q, depth-1)
			}
		}
	}
}

// gRead numbers the nodes reachable from a pointer.
func gRead(fam map[string]reflect.Type, root reflect.Value) ([]*gNode, int) {
	var g []*gNode
	type key struct {
		t reflect.Type
		p uintptr
	}
	seen := map[key]int{}
	var visit func(p reflect.Value) int
	visit = func(p reflect.Value) int {
		for p.Kind() == reflect.Ptr && p.Type().Elem().Kind() == reflect.Ptr {
			if p.IsNil() {
				return 0
			}
			p = p.Elem()
		}
		if p.IsNil() {
			return 0
		}
		k := key{p.Type(), p.Pointer()}
		if i, ok := seen[k]; ok {
			return i
		}
		n := &gNode{}
		g = append(g, n)
		me := len(g)
		seen[k] = me
		if me > 400 {
			panic("driver: a restored graph of more than 400 nodes")
		}
		for name, t := range fam {
			if t == p.Type().Elem() {
				n.t = name
			}
		}
		for _, f := range gFields(p.Type().Elem(), nil) {
			v := gAt(p.Elem(), f.index, false)
			if !v.IsValid() {
				continue
			}
			for f.kind != "one" && v.Kind() == reflect.Ptr && !v.IsNil() {
				v = v.Elem()
			}
			if f.in {
				n.one = append(n.one, gOne{f.name, visit(v.Addr())})
				continue
			}
			if f.kind != "v" && v.IsNil() {
				continue
			}
			switch f.kind {
			case "v":
				n.v = v.Int()
			case "one":
				n.one = append(n.one, gOne{f.name, visit(v)})
			case "l":
				for i := 0; i < v.Len(); i++ {
					n.l = append(n.l, visit(v.Index(i)))
				}
			case "m":
				for _, k := range v.MapKeys() {
					n.m = append(n.m, gOne{k.String(), visit(v.MapIndex(k))})
				}
			}
		}
		return me
	}
	r := visit(root)
	return g, r
}

func graphRec(r *rand.Rand, fam map[string]reflect.Type, g []*gNode, root int, all bool) M {
	ps := gBuild(fam, g)
	mar := func() JO {
		if all {
			return jsonutils.MarshalAll(ps[root-1].Interface())
		}
		return jsonutils.Marshal(ps[root-1].Interface())
	}
	d := mar()
	text := d.String()
	rec := M{"g": encGraph(g), "root": root, "all": all, "text": BS(text), "pretty": BS(d.PrettyString()), "again": BS(mar().String())}
	for k := 0; k < 3 && mapsOfInts(fam); k++ {
		if s := mar().String(); s != text {
			rec["again"] = BS(s)
		}
	}
	rec["asks"] = gAsk(r, d, g, root)
	backs := L{}
	back := func(how string, o JO, err error, fam map[string]reflect.Type) {
		if fam == nil || mapsOfInts(fam) {
			return
		}
		b := M{"how": how, "st": "ok", "g": L{}, "root": 0}
		defer func() { backs = append(backs, b) }()
		if err != nil {
			b["st"] = "noparse"
			return
		}
		p := reflect.New(fam[g[root-1].t])
		into := p
		if r.Intn(3) == 0 {
			gFill(r, fam, g, root-1, p, 3)
		}
		if r.Intn(2) == 0 {
			into = reflect.New(p.Type())
			if r.Intn(2) == 0 {
				into.Elem().Set(p)
			}
		}
		if err := o.Unmarshal(into.Interface()); err != nil {
			b["st"] = "err"
			return
		}
		h, s := gRead(fam, into)
		b["g"], b["root"] = encGraph(h), s
	}
	back("document", d, nil, fam)
	back("document-reordered", d, nil, gTwin(fam))
	o, err := jsonutils.ParseString(text)
	back("text", o, err, fam)
	back("text-reordered", o, err, gTwin(fam))
	if err == nil {
		if s := o.String(); s != text {
			rec["again"] = BS(s)
		}
	}
	o, err = jsonutils.ParseString(d.PrettyString())
	back("indented", o, err, fam)
	back("copy", jsonutils.DeepCopy(d), nil, fam)
	rec["moved"] = BS("")
	if moved, ok := moveObjects(r, text); ok {
		rec["moved"] = BS(moved)
		o, err = jsonutils.ParseString(moved)
		back("moved", o, err, fam)
		if err == nil {
			back("moved-indented", pretty2(o), nil, fam)
		}
	}
	rec["backs"] = backs
	return rec
}

// gAsk asks a document for what lies at the end of paths in the graph: a value, or nothing.
func gAsk(r *rand.Rand, d JO, g []*gNode, root int) L {
	asks := L{}
	plain := d.Interface()
	for k := 0; k < 6; k++ {
		at, way, keys := root, L{}, []string{}
		for n := r.Intn(9); n > 0; n-- {
			var next []L
			for _, o := range g[at-1].one {
				next = append(next, L{L{"p", o.name}, o.to, []string{o.name}})
			}
			for _, o := range g[at-1].m {
				next = append(next, L{L{"m", BS(o.name)}, o.to, []string{"m", o.name}})
			}
			if len(next) == 0 {
				break
			}
			e := next[r.Intn(len(next))]
			if e[1].(int) == 0 {
				continue
			}
			at, way, keys = e[1].(int), append(way, e[0]), append(keys, e[2].([]string)...)
		}
		last := []string{"v", "v", "v", "none"}[r.Intn(4)]
		x := d
		for _, key := range keys {
			if y, err := x.Get(key); err == nil {
				x = y
			}
		}
		ask := M{"way": way, "last": last, "got": L{"err"}, "has": x.Contains(last), "plain": L{"err"}}
		if x, err := x.Int(last); err == nil {
			ask["got"] = L{"ok", BS(strconv.FormatInt(x, 10))}
		}
		p := plain
		for _, key := range append(keys, last) {
			m, ok := p.(map[string]interface{})
			if !ok {
				ask["plain"] = L{"cut"}
				if p != nil {
					panic("neither null nor a map on the way")
				}
				break
			}
			if p, ok = m[key]; !ok {
				break
			}
			if x, ok := p.(int64); ok {
				ask["plain"] = L{"ok", BS(strconv.FormatInt(x, 10))}
			}
		}
		asks = append(asks, ask)
	}
	return asks
}

// pretty2 reads the indented text of a document again.
func pretty2(o JO) JO {
	p, err := jsonutils.ParseString(o.PrettyString())
	must(err)
	return p
}

var refRe = regexp.MustCompile(`<(\d+)>`)

// moveObjects exchanges objects with references to them that stand elsewhere in the text: the
// text says the same then, with other references before their object. (No string in such a text
// holds a bracket.)
func moveObjects(r *rand.Rand, text string) (string, bool) {
	done := false
	for n := 1 + r.Intn(4); n > 0; n-- {
		refs := refRe.FindAllStringSubmatchIndex(text, -1)
		if len(refs) == 0 {
			break
		}
		m := refs[r.Intn(len(refs))]
		ref := text[m[0]:m[1]]
		key := `{"___jnid_":` + text[m[2]:m[3]]
		from := strings.Index(text, key+",")
		if from < 0 {
			from = strings.Index(text, key+"}")
		}
		if from < 0 {
			break
		}
		to, depth := from, 0
		for ; to == from || depth > 0; to++ {
			switch text[to] {
			case '{':
				depth++
			case '}':
				depth--
			}
		}
		switch {
		case m[1] <= from:
			text = text[:m[0]] + text[from:to] + text[m[1]:from] + ref + text[to:]
			done = true
		case m[0] >= to:
			text = text[:from] + ref + text[to:m[0]] + text[from:to] + text[m[1]:]
			done = true
		}
	}
	return text, done
}

func mapsOfInts(fam map[string]reflect.Type) bool { return fam["n"] == reflect.TypeOf(gn4{}) }

func randGraph(r *rand.Rand, fam map[string]reflect.Type, all bool) []*gNode {
	n := 1 + r.Intn(7)
	names := []string{}
	for k := range fam {
		names = append(names, k)
	}
	sort.Strings(names)
	var g []*gNode
	for i := 0; i < n; i++ {
		nd := &gNode{t: names[r.Intn(len(names))], v: int64(r.Intn(100))}
		if r.Intn(3) == 0 {
			nd.v = int64(r.Intn(2))
		}
		g = append(g, nd)
	}
	for _, nd := range g {
		for _, f := range gFields(fam[nd.t], nil) {
			if f.in {
				g = append(g, &gNode{t: "e", v: int64(r.Intn(100))})
				nd.one = append(nd.one, gOne{f.name, len(g)})
			}
		}
	}
	pick := func(t reflect.Type, from int) int {
		var c []int
		for i, x := range g {
			if fam[x.t] == t {
				c = append(c, i+1)
			}
		}
		if len(c) == 0 {
			return 0
		}
		if x := c[r.Intn(len(c))]; r.Intn(3) > 0 || x > from { // loops, but not everywhere
			return x
		}
		return 0
	}
	dense := r.Intn(4)
	for i, nd := range g {
		for _, f := range gFields(fam[nd.t], nil) {
			if r.Intn(4) < dense || f.in {
				continue
			}
			switch f.kind {
			case "one":
				if x := pick(f.elem, i+1); x > 0 {
					nd.one = append(nd.one, gOne{f.name, x})
				}
			case "l":
				if o := g[r.Intn(len(g))]; r.Intn(4) == 0 && o.t == nd.t && len(o.l) > 0 {
					nd.l = append([]int{}, o.l...)
					continue
				}
				for k := r.Intn(4); k > 0; k-- {
					if x := pick(f.elem, i+1); x > 0 || all {
						nd.l = append(nd.l, x)
					}
				}
			case "m":
				keys := []string{"a", "k", "", "z b", "0"}
				if mapsOfInts(fam) {
					keys = []string{"1", "10", "2", "-3", "0"}
				}
				for _, k := range keys {
					if r.Intn(3) == 0 {
						nd.m = append(nd.m, gOne{k, pick(f.elem, i+1)})
					}
				}
			}
		}
	}
	return g
}

func c18(c *Ctx) {
	inLines(c, func(line []byte) {
		dec := map[string][]map[string]interface{}{}
		must(json.Unmarshal(line, &dec))
		var g []*gNode
		for _, x := range dec["g"] {
			v, err := strconv.ParseInt(decBytes(x["v"]), 10, 64)
			must(err)
			n := &gNode{t: x["t"].(string), v: v}
			for _, o := range x["one"].([]interface{}) {
				p := o.([]interface{})
				n.one = append(n.one, gOne{p[0].(string), int(p[1].(float64))})
			}
			for _, o := range x["l"].([]interface{}) {
				n.l = append(n.l, int(o.(float64)))
			}
			g = append(g, n)
		}
		c.Case("spec-graph", func(r *rand.Rand) M {
			fam := gfams[0]
			if r.Intn(2) == 0 {
				fam = map[string]reflect.Type{"n": reflect.TypeOf(gn7{})}
			}
			return graphRec(r, fam, g, 1, r.Intn(4) == 0)
		})
	})
	for n := c.Scale(1000, 12000); n > 0; n-- {
		c.Case("graph", func(r *rand.Rand) M {
			fam := gfams[r.Intn(len(gfams))]
			all := r.Intn(2) == 0
			g := randGraph(r, fam, all)
			return graphRec(r, fam, g, 1+r.Intn(len(g)), all)
		})
	}
}
