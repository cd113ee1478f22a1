package main

// Goroutines that use the library at the same time (spec/MCConc.tla, spec/Conc.tla).

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"yunion.io/x/jsonutils"
)

func init() { checks["C24"] = c24 }

var askKinds = map[string]string{
	"String": "render", "PrettyString": "render", "YAMLString": "render", "QueryString": "render", "json": "render",
	"IsZero": "lookup", "Contains": "lookup", "Get": "lookup", "GetIgnoreCases": "lookup", "GetAt": "lookup", "scalars": "lookup", "GetMap": "lookup",
	"GetArray": "lookup", "helpers": "lookup", "SortedKeys": "lookup", "Value": "lookup",
	"DeepCopy": "copy", "Copy": "copy", "CopyIncludes": "copy",
	"CopyEdit": "edit", "Update": "edit",
	"Equals": "compare", "Diff": "compare",
	"Interface": "convert", "Marshal": "convert", "MarshalAll": "convert",
	"Unmarshal": "unmarshal",
	"Parse":     "parse", "ParseYAML": "parse", "ParseQueryString": "parse",
	"ValueMarshal": "values", "ValueMarshalAll": "values",
	"Own": "own", "OwnShared": "own",
}

// shared is what the goroutines use together, and the questions about it.
func shared(r *rand.Rand) *readers {
	q := &readers{r: r}
	v := genDoc(r, true, 4+r.Intn(12), 8)
	if r.Intn(16) == 0 { // large, so that calls meet within it
		v = (&dcfg{depth: 60, utf: true, yaml: true, maxN: 1100, weight: 5000}).doc(r).expand()
	}
	var d JO
	switch r.Intn(4) {
	case 0:
		x, err := jsonutils.ParseYAML(build(r, v).YAMLString())
		if err != nil { // the key <<
			x = build(r, v)
		}
		d = x
	case 1: // parsed
		x, err := jsonutils.ParseString(build(r, v).String())
		must(err)
		d = x
	default:
		d = build(r, v)
	}
	other := build(r, again(r, v))
	if r.Intn(3) == 0 {
		other = d
	}
	q.seeDoc(d)
	q.seeDoc(other)
	q.askDoc(d, other)
	t := rootTy(r, &tyCfg{any: true, docs: true, names: true}, 1+r.Intn(3))
	t.typ()
	e := build(r, randFor(r, t, 3, 10))
	q.seeDoc(e)
	for _, x := range []JO{e, d} {
		q.askUnmarshal(r, x, x, t, randGo(r, t, &valCfg{six: true}, 2))
	}
	type target struct {
		A interface{}
		B *jsonutils.JSONDict
		G *struct {
			Name string
			Next map[string]interface{}
		}
	}
	q.ask("Unmarshal-plain", func() string {
		var x target
		var m map[string]interface{}
		var i interface{}
		a, b, c := saidE(d.Unmarshal(&x)), saidE(d.Unmarshal(&m)), saidE(d.Unmarshal(&i))
		return a + b + c
	})
	// references and node ids
	type node struct {
		Name string
		Next *node
		All  []*node
	}
	na, nb := &node{Name: "a"}, &node{Name: "b"}
	na.Next, nb.Next, na.All = nb, na, []*node{na, nb}
	gd := jsonutils.Marshal(map[string]*node{"g": na})
	if r.Intn(2) == 0 {
		x, err := jsonutils.ParseString(gd.String())
		must(err)
		gd = x
	}
	q.see(func() string { return gd.String() })
	q.ask("String-graph", func() string { return gd.String() + gd.PrettyString() })
	q.ask("DeepCopy-graph", func() string { return jsonutils.DeepCopy(gd).String() })
	q.ask("Unmarshal-graph", func() string {
		var m map[string]*node
		e := gd.Unmarshal(&m)
		return saidE(e) + deepText(reflect.ValueOf(m["g"]))
	})
	q.ask("ValueMarshal-graph", func() string { return jsonutils.Marshal(na).String() })
	// a Go value that is only read
	p := reflect.New(t.typ())
	setGo(r, t, p.Elem(), jsonRound(randGo(r, t, &valCfg{six: true}, 3)))
	q.see(func() string { return deepText(p) })
	q.ask("ValueMarshal", func() string { return jsonutils.Marshal(p.Interface()).String() })
	q.ask("ValueMarshalAll", func() string { return jsonutils.MarshalAll(p.Interface()).PrettyString() })
	// texts and documents of their own
	s := build(r, genDoc(r, true, 8, 8)).String()
	q.ask("Parse", func() string { return said(jsonutils.ParseString(s)) + said(jsonutils.Parse([]byte(s))) })
	q.ask("ParseYAML", func() string { return said(jsonutils.ParseYAML(s)) })
	q.ask("ParseQueryString", func() string {
		return said(jsonutils.ParseQueryString("a.b=1&a.c=x&l.0=1&l.1=true&" + strings.ReplaceAll(s, "%", "")))
	})
	q.ask("Own", func() string {
		o := jsonutils.NewDict()
		o.Set("t", jsonutils.JSONTrue)
		o.Add(jsonutils.JSONNull, "x", "y")
		o.Add(jsonutils.NewBool(true), "b")
		l := jsonutils.NewArray(jsonutils.JSONFalse, jsonutils.NewInt(3))
		l.Add(o.Copy())
		o.Set("l", l)
		o.Remove("t")
		var f struct {
			B jsonutils.JSONBool
			L []interface{}
			X map[string]*bool
		}
		e := o.Unmarshal(&f)
		return o.String() + saidE(e)
	})
	q.ask("OwnShared", func() string { // a document of its own that holds the shared one
		o := jsonutils.NewDict()
		o.Set("d", d)
		o.Set("e", jsonutils.NewArray(d, other))
		o.Add(jsonutils.NewInt(1), "n")
		o.Remove("n")
		return o.String() + full(jsonutils.DeepCopy(o))
	})
	q.see(func() string { return full(jsonutils.JSONNull) })
	q.see(func() string { return full(jsonutils.JSONTrue) })
	q.see(func() string { return full(jsonutils.JSONFalse) })
	return q
}

func (q *readers) look() L {
	out := L{}
	for _, f := range q.things {
		out = append(out, f())
	}
	return out
}

func kindOf(name string) string {
	k := askKinds[strings.Split(name, "-")[0]]
	if k == "" {
		panic("driver: a question of no kind: " + name)
	}
	return k
}

// concRec lets each goroutine make its calls, one kind after another, all at once.
func concRec(r *rand.Rand, plans [][]string) M {
	seed := r.Int63()
	mk := func() *readers { return shared(rand.New(rand.NewSource(seed))) }
	alone := func() L {
		out := L{}
		for i, a := range mk().asks {
			out = append(out, L{i, a.ask()})
		}
		return out
	}
	var al L
	first := r.Intn(2) == 0
	if first {
		al = alone()
	}
	q := mk()
	before := L(nil)
	if r.Intn(2) == 0 {
		before = q.look()
	}
	n0 := races()
	said := make([]L, len(plans))
	orders := make([][]int, len(plans))
	for g, plan := range plans {
		said[g] = L{}
		for _, k := range plan {
			var is []int
			for i, a := range q.asks {
				if kindOf(a.name) == k {
					is = append(is, i)
				}
			}
			r.Shuffle(len(is), func(a, b int) { is[a], is[b] = is[b], is[a] })
			orders[g] = append(orders[g], is...)
		}
	}
	start := make(chan bool)
	panics := make([]string, len(plans))
	var wg sync.WaitGroup
	for g := range plans {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					panics[g] = fmt.Sprint(e)
				}
			}()
			<-start
			for _, i := range orders[g] {
				said[g] = append(said[g], L{i, q.asks[i].ask()})
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, p := range panics {
		if p != "" {
			panic("in a goroutine: " + p)
		}
	}
	n := races() - n0
	after := q.look()
	if before == nil {
		before = mk().look()
	}
	if !first {
		al = alone()
	}
	s := L{}
	for _, x := range said {
		s = append(s, x)
	}
	return M{"k": "conc", "plans": plans, "alone": al, "said": s, "before": before, "after": after, "races": n}
}

// firstAsk is a question about things that no one has asked about before, and that
// are larger than any before: n is the size of it.
func firstAsk(r *rand.Rand, what string, n int) func() string {
	deep := func(in *V) *V { // n levels around it, lists and objects by turns
		for i := 0; i < n; i++ {
			if i%3 == 1 {
				in = &V{T: 'o', O: []KV{{fmt.Sprintf("key%d", i), in}, {"z", &V{T: 'n'}}}}
			} else {
				in = &V{T: 'a', A: []*V{{T: 'i', I: int64(i)}, in}}
			}
		}
		return &V{T: 'o', O: []KV{{"deep", in}, {"Name", &V{T: 's', S: strings.Repeat("na\"m\u00e9\x01", n)}}}}
	}
	wide := &V{T: 'o'}
	for i := 0; i < 3*n; i++ {
		wide.O = append(wide.O, KV{fmt.Sprintf("key%05d", i), &V{T: 's', S: fmt.Sprintf("word %d of %d", i, n)}})
	}
	v := deep(&V{T: 'a', A: []*V{wide, {T: 'f', F: 1.5 + float64(n)}, {T: 's', S: "1,234.5"}, {T: 's', S: "2020-01-02T03:04:05Z"}}})
	d, e := build(r, v), build(r, v)
	text := rawText(v)
	switch what {
	case "String":
		return func() string { return d.String() }
	case "PrettyString":
		return func() string { return d.PrettyString() }
	case "YAMLString":
		return func() string { return d.YAMLString() }
	case "QueryString":
		return func() string { return d.QueryString() }
	case "DeepCopy":
		return func() string { return full(jsonutils.DeepCopy(d)) }
	case "Equals":
		return func() string { return fmt.Sprint(d.Equals(e), e.Equals(d)) }
	case "Interface":
		return func() string { return fmt.Sprint(d.Interface()) }
	case "lookup":
		return func() string {
			x, err := d.GetIgnoreCases("DEEP")
			m, err2 := d.GetMap()
			return fmt.Sprint(d.ContainsIgnoreCases("name"), full(x), err, len(m), err2, d.Contains("deep"))
		}
	case "Parse":
		return func() string {
			return said(jsonutils.ParseString(text)) + said(jsonutils.ParseString(text[:len(text)-1]))
		}
	case "ParseYAML":
		return func() string { return said(jsonutils.ParseYAML(text)) }
	case "ParseQueryString":
		q := "a=" + strings.Repeat("%41", n)
		for i := 0; i < n; i++ {
			q += fmt.Sprintf("&l.%d.x=%d&m%d=1", i, i, i)
		}
		return func() string { return said(jsonutils.ParseQueryString(q)) }
	case "streams":
		return func() string {
			l, err := jsonutils.ParseJsonStreams([]byte(strings.Repeat(text+" ", 2)))
			return fmt.Sprint(len(l), err == nil)
		}
	case "Unmarshal":
		// a type no one has met
		tag := fmt.Sprintf(`json:"deep" first:"%d"`, n)
		t := reflect.StructOf([]reflect.StructField{
			{Name: "Deep", Type: jsonutils.JSONObjectType, Tag: reflect.StructTag(tag)},
			{Name: "Name", Type: reflect.TypeOf("")},
			{Name: fmt.Sprintf("Extra%d", n), Type: reflect.TypeOf([]int{})},
		})
		return func() string {
			p := reflect.New(t)
			err := d.Unmarshal(p.Interface())
			return saidE(err) + deepText(p)
		}
	case "Marshal":
		t := reflect.StructOf([]reflect.StructField{
			{Name: "Name", Type: reflect.TypeOf(""), Tag: reflect.StructTag(fmt.Sprintf(`json:"name" second:"%d"`, n))},
			{Name: fmt.Sprintf("SomeMore%d", n), Type: reflect.TypeOf([]int{})},
			{Name: "Any", Type: reflect.TypeOf((*interface{})(nil)).Elem()},
		})
		p := reflect.New(t)
		p.Elem().Field(1).Set(reflect.MakeSlice(reflect.TypeOf([]int{}), n, n))
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m = map[string]interface{}{fmt.Sprintf("k%d", i): m, "x": []interface{}{i}}
		}
		p.Elem().Field(2).Set(reflect.ValueOf(m))
		return func() string {
			return jsonutils.Marshal(p.Interface()).String() + jsonutils.MarshalAll(p.Elem().Interface()).String()
		}
	case "convert":
		money := build(r, &V{T: 'a', A: []*V{{T: 's', S: strings.Repeat("1", n%6+1) + ",234.50"}, {T: 's', S: fmt.Sprintf("20%02d-01-02 03:04:05", n%100)}}})
		return func() string {
			var f [2]float64
			e1 := money.Unmarshal(&f)
			var s []string
			e2 := money.Unmarshal(&s)
			x, _ := money.GetAt(1)
			tm, e3 := x.GetTime()
			return saidE(e1) + saidE(e2) + saidE(e3) + fmt.Sprint(f, s, tm)
		}
	}
	panic("driver: no such question: " + what)
}

// rawText is JSON text of v, written without the library.
func rawText(v *V) string {
	switch v.T {
	case 'a':
		xs := []string{}
		for _, x := range v.A {
			xs = append(xs, rawText(x))
		}
		return "[" + strings.Join(xs, ", ") + "]"
	case 'o':
		xs := []string{}
		for _, m := range v.O {
			xs = append(xs, strconv.Quote(m.K)+": "+rawText(m.V))
		}
		return "{" + strings.Join(xs, ",\n") + "}"
	case 'i':
		return strconv.FormatInt(v.I, 10)
	case 'f':
		return strconv.FormatFloat(v.F, 'f', -1, 64)
	case 's':
		b, err := json.Marshal(v.S)
		must(err)
		return string(b)
	}
	return "null"
}

var firstAsks = []string{"String", "PrettyString", "YAMLString", "QueryString", "DeepCopy", "Equals", "Interface", "lookup", "Parse", "ParseYAML",
	"ParseQueryString", "streams", "Unmarshal", "Marshal", "convert"}

// firstRec lets goroutines ask one question at once that no one has asked before.
func firstRec(r *rand.Rand, what string, n int) M {
	ask := firstAsk(r, what, n)
	n0 := races()
	start := make(chan bool)
	said := make([]string, 4)
	panics := make([]string, 4)
	var wg sync.WaitGroup
	for g := range said {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					panics[g] = fmt.Sprint(e)
				}
			}()
			<-start
			said[g] = ask()
		}()
	}
	close(start)
	wg.Wait()
	for _, p := range panics {
		if p != "" {
			panic("in a goroutine: " + p)
		}
	}
	seen := races() - n0
	all := L{}
	for _, s := range said {
		all = append(all, L{L{0, s}})
	}
	return M{"k": "conc", "plans": L{what}, "alone": L{L{0, ask()}}, "said": all, "before": L{}, "after": L{}, "races": seen}
}

func c24(c *Ctx) {
	for n := 1; n <= c.Scale(8, 60); n++ {
		for _, what := range firstAsks {
			n, what := n, what
			c.Case("first", func(r *rand.Rand) M { return firstRec(r, what, 2*n+r.Intn(2)) })
		}
	}
	inLines(c, func(line []byte) {
		var plans [][]string
		must(json.Unmarshal(line, &plans))
		for n := c.Scale(1, 4); n > 0; n-- {
			c.Case("spec", func(r *rand.Rand) M { return concRec(r, plans) })
		}
	})
	kinds := []string{"render", "lookup", "copy", "edit", "compare", "convert", "unmarshal", "parse", "values", "own"}
	for n := c.Scale(60, 1500); n > 0; n-- {
		c.Case("many", func(r *rand.Rand) M {
			plans := make([][]string, 4+r.Intn(5))
			for g := range plans {
				for k := 1 + r.Intn(4); k > 0; k-- {
					plans[g] = append(plans[g], kinds[r.Intn(len(kinds))])
				}
			}
			return concRec(r, plans)
		})
	}
}
