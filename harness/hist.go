package main

// Histories of calls on documents held in variables (spec/JHeap.tla, Hist.tla).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"time"

	"yunion.io/x/jsonutils"
)

type JO = jsonutils.JSONObject

// hop is one call. Its fields are laid out per operation as in JHeap.tla.
type hop struct {
	c  string
	r  int      // variable the call is made on
	s  int      // variable that is passed
	q  int      // variable that takes the outcome
	n  int      // position, counted from 0
	k  string   // key
	ks []string // key path or list of keys
	ss []int    // variables that are passed
	v  *V       // document
}

// layout of the operations after the name: which field comes where
var hopLayout = map[string]string{
	"lit": "rv", "set": "rks", "add": "rps", "rem": "rk", "remic": "rk", "upd": "rs", "updd": "rs", "app": "rS", "setat": "rns",
	"copy": "rq", "acopy": "rq", "copyx": "rqp", "copye": "rqp", "copyi": "rqp", "deep": "rq", "diff": "rsq",
	"get": "rpq", "getic": "rpq", "getat": "rnpq", "map": "rpq", "vmap": "rpq", "arr": "rpq", "varr": "rpq", "keys": "rq", "mkarr": "rq", "appl": "rs",
	"mset": "rks", "mdel": "rk", "lset": "rns", "kset": "rnk", "mark": "",
	"has": "rp", "hasic": "rp", "int": "rp", "float": "rp", "bool": "rp", "time": "rp", "str": "rp", "at": "rnp", "list": "rp", "val": "rp", "valic": "rp",
	"plain": "rq", "all": "rq", "gset": "rps", "gdel": "rp", "gget": "rpq",
	"mkstr": "qp", "req": "rp", "qlist": "rk", "slist": "rp", "texts": "r", "first": "rp", "pfx": "rk", "qbool": "rkn",
	"size": "r", "zero": "r", "klist": "r", "text": "r", "eq": "rs",
}

func encKeys(ks []string) L {
	out := L{}
	for _, k := range ks {
		out = append(out, BS(k))
	}
	return out
}

func (o *hop) enc() L {
	out := L{o.c}
	for _, f := range hopLayout[o.c] {
		switch f {
		case 'r':
			out = append(out, o.r)
		case 's':
			out = append(out, o.s)
		case 'q':
			out = append(out, o.q)
		case 'n':
			out = append(out, o.n)
		case 'k':
			out = append(out, BS(o.k))
		case 'p':
			out = append(out, encKeys(o.ks))
		case 'S':
			ss := L{}
			for _, x := range o.ss {
				ss = append(ss, x)
			}
			out = append(out, ss)
		case 'v':
			out = append(out, o.v.enc())
		}
	}
	return out
}

func decHop(x interface{}) *hop {
	a := x.([]interface{})
	o := &hop{c: a[0].(string)}
	for i, f := range hopLayout[o.c] {
		y := a[i+1]
		switch f {
		case 'r':
			o.r = int(y.(float64))
		case 's':
			o.s = int(y.(float64))
		case 'q':
			o.q = int(y.(float64))
		case 'n':
			o.n = int(y.(float64))
		case 'k':
			o.k = decBytes(y)
		case 'p':
			for _, z := range y.([]interface{}) {
				o.ks = append(o.ks, decBytes(z))
			}
		case 'S':
			for _, z := range y.([]interface{}) {
				o.ss = append(o.ss, int(z.(float64)))
			}
		case 'v':
			o.v = decV(y)
		}
	}
	return o
}

type hist struct {
	rnd  *rand.Rand
	reg  []interface{} // JSONObject, map[string]JSONObject, []JSONObject or []string
	last [][]byte
	vs   []*V // documents made so far
	ops  L
	res  L
	dump L
}

func newHist(r *rand.Rand, n int) *hist {
	h := &hist{rnd: r, reg: make([]interface{}, n), last: make([][]byte, n)}
	for i := range h.reg {
		h.reg[i] = jsonutils.JSONNull
		h.last[i], _ = json.Marshal(encThing(h.reg[i]))
	}
	return h
}

func encThing(x interface{}) L {
	switch v := x.(type) {
	case map[string]JO:
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		ms := L{}
		for _, k := range keys {
			ms = append(ms, L{BS(k), EncNoId(v[k])})
		}
		return L{"o", ms, BS("")}
	case []JO:
		xs := L{}
		for _, y := range v {
			xs = append(xs, EncNoId(y))
		}
		return L{"a", xs}
	case []string:
		return L{"k", encKeys(v)}
	case JO:
		return EncNoId(v)
	case *plain:
		return encPlain(v.v, 0)
	}
	return L{"nil"}
}

// plain is a plain Go value that a variable holds.
type plain struct{ v interface{} }

// encPlain writes a plain Go value the way the document it mirrors is written.
func encPlain(x interface{}, depth int) L {
	if depth > 70 {
		return L{"deep"}
	}
	switch v := x.(type) {
	case nil:
		return L{"n"}
	case bool:
		return L{"b", v}
	case int64:
		return L{"i", BS(strconv.FormatInt(v, 10))}
	case float64:
		return encFloat(v, 64)
	case string:
		return L{"s", BS(v)}
	case []interface{}:
		if v == nil {
			return L{"no-slice"}
		}
		xs := L{}
		for _, y := range v {
			xs = append(xs, encPlain(y, depth+1))
		}
		return L{"a", xs}
	case map[string]interface{}:
		if v == nil {
			return L{"no-map"}
		}
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		ms := L{}
		for _, k := range keys {
			ms = append(ms, L{BS(k), encPlain(v[k], depth+1)})
		}
		return L{"o", ms, BS("")}
	}
	return L{"?", BS(fmt.Sprintf("%T", x))}
}

// plainOf is the plain value that variable i holds or that its scalar document stands for.
func (h *hist) plainOf(i int) interface{} {
	switch v := h.reg[i-1].(type) {
	case *plain:
		return v.v
	case *jsonutils.JSONBool:
		return v.Value()
	case *jsonutils.JSONInt:
		return v.Value()
	case *jsonutils.JSONFloat:
		return v.Value()
	case *jsonutils.JSONString:
		return v.Value()
	case *jsonutils.JSONValue:
		return nil
	}
	panic("driver: no plain value")
}

func plainAt(x interface{}, ks []string) interface{} {
	for _, k := range ks {
		switch v := x.(type) {
		case map[string]interface{}:
			x = v[k]
		case []interface{}:
			n, err := strconv.Atoi(k)
			must(err)
			x = v[n]
		}
	}
	return x
}

// plainReach lists the maps and slices below x by their addresses.
func plainReach(x interface{}, seen map[uintptr]bool) map[uintptr]bool {
	switch v := x.(type) {
	case map[string]interface{}:
		seen[reflect.ValueOf(v).Pointer()] = true
		for _, y := range v {
			plainReach(y, seen)
		}
	case []interface{}:
		if len(v) > 0 {
			seen[reflect.ValueOf(v).Pointer()] = true
		}
		for _, y := range v {
			plainReach(y, seen)
		}
	}
	return seen
}

func encStrs(xs []string) L {
	out := L{}
	for _, x := range xs {
		out = append(out, BS(x))
	}
	return L{"ok", out}
}

func (h *hist) doc(i int) JO                     { return h.reg[i-1].(JO) }
func (h *hist) dict(i int) *jsonutils.JSONDict   { return h.reg[i-1].(*jsonutils.JSONDict) }
func (h *hist) array(i int) *jsonutils.JSONArray { return h.reg[i-1].(*jsonutils.JSONArray) }
func (h *hist) bind(q int, x interface{})        { h.reg[q-1] = x }
func okErr(err error) L {
	if err != nil {
		return L{"err"}
	}
	return L{"ok"}
}

// do makes the call and records its result and the variables that look different now.
func (h *hist) do(o *hop) {
	h.ops = append(h.ops, o.enc())
	h.res = append(h.res, h.call(o))
	d := L{}
	for i, x := range h.reg {
		e := encThing(x)
		b, err := json.Marshal(e)
		must(err)
		if !bytes.Equal(b, h.last[i]) {
			h.last[i] = b
			d = append(d, L{i + 1, e})
		}
	}
	h.dump = append(h.dump, d)
}

func (h *hist) rec() M {
	return M{"k": "hist", "nreg": len(h.reg), "ops": h.ops, "res": h.res, "dump": h.dump}
}

// made makes a document from scratch, one way or another.
func made(r *rand.Rand, v *V) JO {
	d := build(r, v)
	switch r.Intn(4) {
	case 0:
		if !v.hasFloat() {
			p, err := jsonutils.ParseString(d.String())
			must(err)
			return p
		}
	case 1:
		if r.Intn(4) == 0 && !v.hasFloat() { // out of Go values
			m := jsonutils.MarshalAll(plainly(v))
			if m.String() == d.String() {
				return m
			}
		}
	case 2:
		if v.T == 'o' { // one that has seen other members before
			x := d.(*jsonutils.JSONDict)
			for i := r.Intn(5); i > 0; i-- {
				k := "zz" + strconv.Itoa(i)
				if x.Contains(k) {
					continue
				}
				x.Set(k, jsonutils.NewInt(1))
				x.Remove(k)
			}
		}
	}
	return d
}

func plainly(v *V) interface{} {
	switch v.T {
	case 'n':
		return nil
	case 'b':
		return v.B
	case 'i':
		return v.I
	case 's':
		return v.S
	case 'a':
		a := make([]interface{}, len(v.A))
		for i, x := range v.A {
			a[i] = plainly(x)
		}
		return a
	}
	m := map[string]interface{}{}
	for _, x := range v.O {
		m[x.K] = plainly(x.V)
	}
	return m
}

func (v *V) hasFloat() bool {
	if v.T == 'f' {
		return true
	}
	for _, x := range v.A {
		if x.hasFloat() {
			return true
		}
	}
	for _, x := range v.O {
		if x.V.hasFloat() {
			return true
		}
	}
	return false
}

func (h *hist) take(q int, x JO, err error) L {
	if err != nil {
		if x != nil {
			return L{"both"}
		}
		return L{"err"}
	}
	if x == nil {
		return L{"neither"}
	}
	h.bind(q, x)
	return L{"ok"}
}

func (h *hist) call(o *hop) L {
	switch o.c {
	case "lit":
		h.bind(o.r, made(h.rnd, o.v))
	case "set":
		h.dict(o.r).Set(o.k, h.doc(o.s))
	case "add":
		return okErr(h.dict(o.r).Add(h.doc(o.s), o.ks...))
	case "rem":
		return L{"ok", h.dict(o.r).Remove(o.k)}
	case "remic":
		return L{"ok", h.dict(o.r).RemoveIgnoreCase(o.k)}
	case "upd":
		h.dict(o.r).Update(h.doc(o.s))
	case "updd":
		h.dict(o.r).UpdateDefault(h.doc(o.s))
	case "app":
		var xs []JO
		for _, s := range o.ss {
			xs = append(xs, h.doc(s))
		}
		h.array(o.r).Add(xs...)
	case "setat":
		h.array(o.r).SetAt(o.n, h.doc(o.s))
	case "copy":
		h.bind(o.q, h.dict(o.r).Copy())
	case "acopy":
		h.bind(o.q, h.array(o.r).Copy())
	case "copyx":
		h.bind(o.q, h.dict(o.r).Copy(o.ks...))
	case "copye":
		h.bind(o.q, h.dict(o.r).CopyExcludes(o.ks...))
	case "copyi":
		h.bind(o.q, h.dict(o.r).CopyIncludes(o.ks...))
	case "deep":
		x := h.doc(o.r)
		if m, ok := x.(interface{ DeepCopy() interface{} }); ok && h.rnd.Intn(2) == 0 {
			h.bind(o.q, m.DeepCopy())
		} else {
			h.bind(o.q, jsonutils.DeepCopy(x))
		}
	case "diff":
		a, b, e, f := jsonutils.Diff(h.dict(o.r), h.dict(o.s))
		h.bind(o.q, a)
		h.bind(o.q+1, b)
		h.bind(o.q+2, e)
		h.bind(o.q+3, f)
	case "get":
		x, err := h.doc(o.r).Get(o.ks...)
		return h.take(o.q, x, err)
	case "getic":
		x, err := h.doc(o.r).GetIgnoreCases(o.ks...)
		return h.take(o.q, x, err)
	case "getat":
		x, err := h.doc(o.r).GetAt(o.n, o.ks...)
		return h.take(o.q, x, err)
	case "map":
		m, err := h.doc(o.r).GetMap(o.ks...)
		if err != nil {
			return L{"err"}
		}
		h.bind(o.q, m)
	case "vmap":
		h.bind(o.q, h.dict(o.r).Value())
	case "arr":
		m, err := h.doc(o.r).GetArray(o.ks...)
		if err != nil {
			return L{"err"}
		}
		h.bind(o.q, m)
	case "varr":
		h.bind(o.q, h.array(o.r).Value())
	case "keys":
		h.bind(o.q, h.dict(o.r).SortedKeys())
	case "mkarr":
		h.bind(o.q, jsonutils.NewArray(h.reg[o.r-1].([]JO)...))
	case "appl":
		h.array(o.r).Add(h.reg[o.s-1].([]JO)...)
	case "mset":
		h.reg[o.r-1].(map[string]JO)[o.k] = h.doc(o.s)
	case "mdel":
		delete(h.reg[o.r-1].(map[string]JO), o.k)
	case "lset":
		h.reg[o.r-1].([]JO)[o.n] = h.doc(o.s)
	case "kset":
		h.reg[o.r-1].([]string)[o.n] = o.k
	case "mark":
		h.mark()
	case "plain":
		h.bind(o.q, &plain{h.doc(o.r).Interface()})
	case "all":
		h.bind(o.q, jsonutils.MarshalAll(h.reg[o.r-1].(*plain).v))
	case "gset":
		n := len(o.ks) - 1
		switch v := plainAt(h.reg[o.r-1].(*plain).v, o.ks[:n]).(type) {
		case map[string]interface{}:
			v[o.ks[n]] = h.plainOf(o.s)
		case []interface{}:
			i, err := strconv.Atoi(o.ks[n])
			must(err)
			v[i] = h.plainOf(o.s)
		}
	case "gdel":
		n := len(o.ks) - 1
		delete(plainAt(h.reg[o.r-1].(*plain).v, o.ks[:n]).(map[string]interface{}), o.ks[n])
	case "gget":
		h.bind(o.q, &plain{plainAt(h.reg[o.r-1].(*plain).v, o.ks)})
	case "mkstr":
		h.bind(o.q, jsonutils.NewStringArray(o.ks))
	case "req":
		return okErr(jsonutils.CheckRequiredFields(h.doc(o.r), o.ks))
	case "qlist":
		if len(jsonutils.GetQueryStringArray(nil, o.k)) != 0 {
			return L{"nothing-holds-something"}
		}
		return encStrs(jsonutils.GetQueryStringArray(h.doc(o.r), o.k))
	case "slist":
		x, err := jsonutils.GetStringArray(h.doc(o.r), o.ks...)
		if err != nil {
			return L{"err"}
		}
		return encStrs(x)
	case "texts":
		x := encStrs(h.array(o.r).GetStringArray())
		if y := encStrs(jsonutils.JSONArray2StringArray(h.array(o.r).Value())); !reflect.DeepEqual(x, y) {
			return L{"differ"}
		}
		return x
	case "first":
		if v, k := jsonutils.GetAnyString2(nil, o.ks); v != "" || k != "" || jsonutils.GetAnyString(nil, o.ks) != "" {
			return L{"nothing-holds-something"}
		}
		v, k := jsonutils.GetAnyString2(h.doc(o.r), o.ks)
		if jsonutils.GetAnyString(h.doc(o.r), o.ks) != v {
			return L{"differ"}
		}
		return L{"ok", BS(v), BS(k)}
	case "pfx":
		if len(jsonutils.GetArrayOfPrefix(nil, o.k)) != 0 {
			return L{"nothing-holds-something"}
		}
		out := L{}
		for _, x := range jsonutils.GetArrayOfPrefix(h.doc(o.r), o.k) {
			out = append(out, EncNoId(x))
		}
		return L{"ok", out}
	case "qbool":
		if jsonutils.QueryBoolean(nil, o.k, true) != true || jsonutils.QueryBoolean(nil, o.k, false) != false {
			return L{"nothing-holds-something"}
		}
		return L{"ok", jsonutils.QueryBoolean(h.doc(o.r), o.k, o.n == 1)}
	case "has":
		return L{"ok", h.doc(o.r).Contains(o.ks...)}
	case "hasic":
		return L{"ok", h.doc(o.r).ContainsIgnoreCases(o.ks...)}
	case "int":
		x, err := h.doc(o.r).Int(o.ks...)
		if err != nil {
			return L{"err"}
		}
		return L{"ok", BS(strconv.FormatInt(x, 10))}
	case "float":
		x, err := h.doc(o.r).Float(o.ks...)
		if err != nil {
			return L{"err"}
		}
		return L{"ok", encFloat(x, 64)}
	case "bool":
		x, err := h.doc(o.r).Bool(o.ks...)
		if err != nil {
			return L{"err"}
		}
		return L{"ok", x}
	case "time":
		x, err := h.doc(o.r).GetTime(o.ks...)
		if err != nil {
			return L{"err"}
		}
		return encTime(x)
	case "str":
		x, err := h.doc(o.r).GetString(o.ks...)
		if err != nil {
			return L{"err"}
		}
		return L{"ok", BS(x)}
	case "at":
		x, err := h.doc(o.r).GetAt(o.n, o.ks...)
		return outcomeNoId(x, err)
	case "list":
		xs, err := h.doc(o.r).GetArray(o.ks...)
		if err != nil {
			return L{"err"}
		}
		out := L{}
		for _, x := range xs {
			out = append(out, EncNoId(x))
		}
		return L{"ok", out}
	case "val":
		x, err := h.doc(o.r).Get(o.ks...)
		return outcomeNoId(x, err)
	case "valic":
		x, err := h.doc(o.r).GetIgnoreCases(o.ks...)
		return outcomeNoId(x, err)
	case "size":
		switch v := h.doc(o.r).(type) {
		case *jsonutils.JSONDict:
			if v.Size() != v.Length() {
				return L{"ok", -2}
			}
			return L{"ok", v.Size()}
		case *jsonutils.JSONArray:
			if v.Size() != v.Length() {
				return L{"ok", -2}
			}
			return L{"ok", v.Size()}
		case *jsonutils.JSONString:
			return L{"ok", v.Length()}
		}
		return L{"ok", -1}
	case "zero":
		return L{"ok", h.doc(o.r).IsZero()}
	case "klist":
		return L{"ok", encKeys(h.dict(o.r).SortedKeys())}
	case "text":
		return L{"ok", BS(h.doc(o.r).String())}
	case "eq":
		return L{"ok", h.doc(o.r).Equals(h.doc(o.s))}
	default:
		panic("driver: no operation " + o.c)
	}
	return L{"ok"}
}

func outcomeNoId(o JO, err error) L {
	switch {
	case err != nil && o != nil:
		return L{"both"}
	case err != nil:
		return L{"err"}
	case o == nil:
		return L{"neither"}
	}
	return L{"ok", EncNoId(o)}
}

func encTime(t time.Time) L {
	u := t.Unix()
	day := u / 86400
	sec := u % 86400
	if sec < 0 {
		sec += 86400
		day--
	}
	return L{"ok", day, sec, t.Nanosecond()}
}

// mark tags every container with its number in a walk over all variables, so that sharing shows.
func (h *hist) mark() {
	seen := map[interface{}]bool{}
	n := 0
	tag := func() string { n++; return "~" + strconv.Itoa(n) }
	var walk func(x JO)
	walk = func(x JO) {
		switch v := x.(type) {
		case *jsonutils.JSONDict:
			if seen[v] {
				return
			}
			seen[v] = true
			t := tag()
			for _, k := range v.SortedKeys() {
				y, _ := v.Get(k)
				walk(y)
			}
			v.Set(t, jsonutils.JSONNull)
		case *jsonutils.JSONArray:
			if seen[v] {
				return
			}
			seen[v] = true
			t := tag()
			for i := 0; i < v.Length(); i++ {
				y, _ := v.GetAt(i)
				walk(y)
			}
			v.Add(jsonutils.NewString(t))
		}
	}
	for i, x := range h.reg {
		switch v := x.(type) {
		case JO:
			walk(v)
		case map[string]JO:
			t := tag()
			var keys []string
			for k := range v {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				walk(v[k])
			}
			v[t] = jsonutils.JSONNull
		case []JO:
			t := tag()
			for _, y := range v {
				walk(y)
			}
			h.reg[i] = append(append([]JO{}, v...), jsonutils.NewString(t))
		case []string:
			h.reg[i] = append(append([]string{}, v...), tag())
		}
	}
}

// reach lists the containers reachable from a document.
func reach(x JO, seen map[JO]bool) map[JO]bool {
	switch v := x.(type) {
	case *jsonutils.JSONDict:
		if !seen[v] {
			seen[v] = true
			for _, y := range v.Value() {
				reach(y, seen)
			}
		}
	case *jsonutils.JSONArray:
		if !seen[v] {
			seen[v] = true
			for _, y := range v.Value() {
				reach(y, seen)
			}
		}
	}
	return seen
}

// histCases runs the histories the specification enumerated: {"n": variables, "ops": [...]}.
func histCases(c *Ctx) {
	inLines(c, func(line []byte) {
		var x struct {
			N   int           `json:"n"`
			Ops []interface{} `json:"ops"`
		}
		must(json.Unmarshal(line, &x))
		c.Case("spec-history", func(r *rand.Rand) M {
			h := newHist(r, x.N)
			for _, o := range x.Ops {
				h.do(decHop(o))
			}
			return h.rec()
		})
	})
}
