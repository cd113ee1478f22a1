package main

// Calls that read, each made more than once (spec/Reads.tla).

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"yunion.io/x/jsonutils"
)

type question struct {
	name string
	ask  func() string
}

type readers struct {
	r      *rand.Rand
	things []func() string
	asks   []question
}

func (q *readers) see(f func() string)              { q.things = append(q.things, f) }
func (q *readers) ask(name string, f func() string) { q.asks = append(q.asks, question{name, f}) }
func (q *readers) seeDoc(d JO)                      { q.see(func() string { return full(d) }) }

// full shows a document without asking the library.
func full(x interface{}) string {
	b, err := json.Marshal(encThing(x))
	must(err)
	return string(b)
}

func deepText(v reflect.Value) string {
	var sb strings.Builder
	deep(&sb, v, map[uintptr]int{})
	return sb.String()
}

// deep writes everything in a Go value: pointers by the order they are met in, slices up to their capacity.
func deep(sb *strings.Builder, v reflect.Value, seen map[uintptr]int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if n, ok := seen[v.Pointer()]; ok {
			fmt.Fprintf(sb, "&%d", n)
			return
		}
		seen[v.Pointer()] = len(seen)
		sb.WriteString("*")
		deep(sb, v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "(%s)", v.Elem().Type())
		deep(sb, v.Elem(), seen)
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "[%d:", v.Len())
		w := v.Slice3(0, v.Cap(), v.Cap())
		for i := 0; i < w.Len(); i++ {
			deep(sb, w.Index(i), seen)
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
	case reflect.Array:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			deep(sb, v.Index(i), seen)
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprintf("%v", ks[i]) < fmt.Sprintf("%v", ks[j]) })
		sb.WriteByte('{')
		for _, k := range ks {
			fmt.Fprintf(sb, "%q:", fmt.Sprintf("%v", k))
			deep(sb, v.MapIndex(k), seen)
			sb.WriteByte(',')
		}
		sb.WriteByte('}')
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			deep(sb, v.Field(i), seen)
			sb.WriteByte(',')
		}
		sb.WriteByte('}')
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%x", v.Float())
	default:
		sb.WriteString(v.Kind().String())
	}
}

func said(x JO, err error) string {
	if err != nil {
		return "error"
	}
	return full(x)
}

func saidE(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

// record makes every call at least twice, in some order, looking at everything after each.
func (q *readers) record() M {
	q.see(func() string { return full(jsonutils.JSONNull) })
	q.see(func() string { return full(jsonutils.JSONTrue) })
	q.see(func() string { return full(jsonutils.JSONFalse) })
	last := make([]string, len(q.things))
	start := L{}
	for i, f := range q.things {
		last[i] = f()
		start = append(start, last[i])
	}
	steps := L{}
	order := append(q.r.Perm(len(q.asks)), q.r.Perm(len(q.asks))...)
	for _, k := range order {
		a := q.asks[k].ask()
		d := L{}
		for i, f := range q.things {
			if now := f(); now != last[i] {
				last[i] = now
				d = append(d, L{i + 1, now})
			}
		}
		steps = append(steps, L{q.asks[k].name, a, d})
	}
	return M{"k": "reads", "start": start, "steps": steps}
}

var readKeys = [][]string{{}, {"a"}, {"a", "b"}, {""}, {"A"}, {"0"}, {"b"}, {"nope", "x"}}

func (q *readers) askDoc(d, other JO) {
	r := q.r
	keys := readKeys[r.Intn(len(readKeys))]
	q.ask("String", func() string { return d.String() })
	q.ask("PrettyString", func() string { return d.PrettyString() })
	q.ask("YAMLString", func() string { return lines(d.YAMLString()) })
	q.ask("QueryString", func() string { return d.QueryString() })
	q.ask("IsZero", func() string { return fmt.Sprint(d.IsZero()) })
	q.ask("Interface", func() string { return deepText(reflect.ValueOf(&[]interface{}{d.Interface()})) })
	q.ask("Equals", func() string { return fmt.Sprint(d.Equals(other), other.Equals(d), d.Equals(d)) })
	q.ask("DeepCopy", func() string { return full(jsonutils.DeepCopy(d)) })
	q.ask("Marshal", func() string { return full(jsonutils.Marshal(d)) })
	q.ask("MarshalAll", func() string { return full(jsonutils.MarshalAll([]JO{d, other})) })
	q.ask("json", func() string { b, err := json.Marshal(d); return string(b) + saidE(err) })
	q.ask("Contains", func() string { return fmt.Sprint(d.Contains(keys...), d.ContainsIgnoreCases(keys...)) })
	q.ask("Get", func() string { return said(d.Get(keys...)) })
	q.ask("GetIgnoreCases", func() string { return said(d.GetIgnoreCases(keys...)) })
	q.ask("GetAt", func() string { return said(d.GetAt(1, keys...)) })
	q.ask("scalars", func() string {
		i, e1 := d.Int(keys...)
		f, e2 := d.Float(keys...)
		b, e3 := d.Bool(keys...)
		t, e4 := d.GetTime(keys...)
		s, e5 := d.GetString(keys...)
		return fmt.Sprint(i, saidE(e1), f, saidE(e2), b, saidE(e3), t, saidE(e4), s, saidE(e5))
	})
	q.ask("GetMap", func() string { m, err := d.GetMap(keys...); return full(m) + saidE(err) })
	q.ask("GetArray", func() string { m, err := d.GetArray(keys...); return full(m) + saidE(err) })
	q.ask("helpers", func() string {
		xs, err := jsonutils.GetStringArray(d)
		return fmt.Sprint(xs, saidE(err), jsonutils.GetAnyString(d, []string{"a", "b"}), jsonutils.QueryBoolean(d, "a", true),
			jsonutils.GetQueryStringArray(d, "a"), saidE(jsonutils.CheckRequiredFields(d, []string{"a"}))) + full(jsonutils.GetArrayOfPrefix(d, "a"))
	})
	switch v := d.(type) {
	case *jsonutils.JSONDict:
		q.ask("Copy", func() string { return full(v.Copy("a")) + full(v.Copy()) })
		q.ask("CopyIncludes", func() string { return full(v.CopyIncludes("a", "b")) + full(v.CopyExcludes("a")) })
		q.ask("SortedKeys", func() string { return fmt.Sprint(v.SortedKeys(), v.Size(), v.Length()) })
		q.ask("Value", func() string { return full(v.Value()) })
		if w, ok := other.(*jsonutils.JSONDict); ok {
			q.ask("Diff", func() string { a, b, c, e := jsonutils.Diff(v, w); return full(a) + full(b) + full(c) + full(e) })
			// what is merged into is a copy; what is merged stays
			q.ask("Update", func() string { c := v.Copy(); c.Update(w); e := w.Copy(); e.UpdateDefault(v); return full(c) + full(e) })
		}
		q.ask("CopyEdit", func() string { c := v.Copy(); c.Remove("a"); c.Set("zz", jsonutils.JSONTrue); return full(c) })
	case *jsonutils.JSONArray:
		q.ask("Copy", func() string { return full(v.Copy()) + fmt.Sprint(v.GetStringArray(), v.Size(), v.Length()) })
		q.ask("Value", func() string { return full(v.Value()) })
		q.ask("CopyEdit", func() string { c := v.Copy(); c.Add(jsonutils.JSONFalse); return full(c) })
	}
}

// otherWidths makes single-precision numbers of some of the numbers, and the reverse.
func otherWidths(r *rand.Rand, v *V) *V {
	w := *v
	w.A, w.O = nil, nil
	for _, x := range v.A {
		w.A = append(w.A, otherWidths(r, x))
	}
	for _, x := range v.O {
		w.O = append(w.O, KV{x.K, otherWidths(r, x.V)})
	}
	if w.T == 'f' && r.Intn(2) == 0 {
		if f := float64(float32(w.F)); w.Bit == 64 && !math.IsInf(f, 0) && math.Abs(f) > 1e-30 {
			w.Bit, w.F = 32, f
		} else {
			w.Bit, w.Sgl = 64, false
		}
	}
	return &w
}

// askUnmarshal unmarshals a document, and after it another, into one variable.
func (q *readers) askUnmarshal(r *rand.Rand, d, e JO, t *ty, old gv) {
	o := jsonRound(old)
	seed := r.Int63()
	q.ask(fmt.Sprintf("Unmarshal-%s-%d", t.K, len(q.asks)), func() string {
		p := reflect.New(t.typ())
		setGo(rand.New(rand.NewSource(seed)), t, p.Elem(), o)
		e1 := d.Unmarshal(p.Interface())
		a := deepText(p)
		e2 := e.Unmarshal(p.Interface())
		b := deepText(p)
		if e1 != nil { // what is stored after a failure is not the question here
			a, b = "", ""
		}
		if e2 != nil {
			b = ""
		}
		return saidE(e1) + saidE(e2) + a + b
	})
}

func init() { checks["C14reads"] = c14 }

func c14(c *Ctx) {
	for n := c.Scale(500, 6000); n > 0; n-- {
		c.Case("document", func(r *rand.Rand) M {
			q := &readers{r: r}
			v := otherWidths(r, genDoc(r, true, 8, 10))
			d, e := made(r, v), made(r, otherWidths(r, again(r, v)))
			q.seeDoc(d)
			q.seeDoc(e)
			q.askDoc(d, e)
			return q.record()
		})
		c.Case("unmarshal", func(r *rand.Rand) M {
			q := &readers{r: r}
			t := rootTy(r, &tyCfg{any: true, docs: true, names: true, anyKey: true}, 1+r.Intn(4))
			d, e := made(r, randFor(r, t, 3, 10)), made(r, randFor(r, t, 3, 10))
			if r.Intn(4) == 0 {
				e = d
			}
			q.seeDoc(d)
			q.seeDoc(e)
			q.askUnmarshal(r, d, e, t, randGo(r, t, &valCfg{six: true}, 2))
			q.askUnmarshal(r, e, d, t, randGo(r, t, &valCfg{six: true}, 2))
			return q.record()
		})
		c.Case("marshal", func(r *rand.Rand) M {
			q := &readers{r: r}
			t := rootTy(r, &tyCfg{any: true, docs: true, names: true, strTag: true, anyKey: true}, 1+r.Intn(4))
			p := reflect.New(t.typ())
			setGo(r, t, p.Elem(), jsonRound(randGo(r, t, &valCfg{six: true}, 3)))
			q.see(func() string { return deepText(p) })
			x := p.Interface()
			if r.Intn(2) == 0 {
				x = p.Elem().Interface()
			}
			if t.K == "docv" {
				x = p.Interface()
			}
			q.ask("Marshal", func() string { return full(jsonutils.Marshal(x)) })
			q.ask("MarshalAll", func() string { return full(jsonutils.MarshalAll(x)) })
			q.ask("MarshalText", func() string { return jsonutils.Marshal(x).String() })
			return q.record()
		})
		c.Case("parse", func(r *rand.Rand) M {
			q := &readers{r: r}
			b := []byte(genText(r, 8))
			if r.Intn(3) == 0 {
				b = []byte(mutate(r, string(b)))
			}
			q.see(func() string { return fmt.Sprintf("%q", b[:cap(b)]) })
			s := string(b)
			q.ask("Parse", func() string { return said(jsonutils.Parse(exact(b))) })
			q.ask("ParseString", func() string { return said(jsonutils.ParseString(s)) })
			q.ask("ParseJsonStreams", func() string {
				xs, err := jsonutils.ParseJsonStreams(exact(b))
				return fmt.Sprint(len(xs)) + saidE(err) + full(xs)
			})
			q.ask("ParseYAML", func() string { return said(jsonutils.ParseYAML(s)) })
			q.ask("ParseQueryString", func() string { return said(jsonutils.ParseQueryString(s)) })
			return q.record()
		})
	}
}

// lines puts the lines of a YAML text in order: the library leaves the order of
// keys to its YAML package, whose comparison of keys is not an order for all
// keys, so that the same mapping may be written in several orders.
func lines(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}
