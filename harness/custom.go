package main

// Types with JSON methods and hooks of their own (spec/JStruct.tla, "cust" and
// structs marked "hook").

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"yunion.io/x/jsonutils"
)

func init() { checks["C21"] = c21 }

// ---------------------------------------------------------------------
// The methods: what is read and written, whatever the type.

func readAngle(b []byte) (string, error) {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return "", err
	}
	if len(s) < 2 || s[0] != '<' || s[len(s)-1] != '>' {
		return "", fmt.Errorf("not in brackets: %s", s)
	}
	return s[1 : len(s)-1], nil
}

func writeAngle(s string) ([]byte, error) {
	if strings.HasPrefix(s, "!") {
		return nil, fmt.Errorf("cannot be written: %s", s)
	}
	return json.Marshal("<" + s + ">")
}

func readMember(b []byte) (string, error) {
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		return "", err
	}
	s, ok := m["custom"].(string)
	if !ok || len(m) != 1 {
		return "", fmt.Errorf("not one member custom: %s", b)
	}
	return s, nil
}

func writeMember(s string) ([]byte, error) {
	if strings.HasPrefix(s, "!") {
		return nil, fmt.Errorf("cannot be written: %s", s)
	}
	return json.Marshal(map[string]string{"custom": s})
}

func readOne(b []byte) (int64, error) {
	var xs []json.Number
	if err := json.Unmarshal(b, &xs); err != nil {
		return 0, err
	}
	if len(xs) != 1 || len(b) > 2 && strings.Contains(string(b), "\"") {
		return 0, fmt.Errorf("not one number: %s", b)
	}
	return strconv.ParseInt(string(xs[0]), 10, 64)
}

func readRaw(b []byte) (string, error) {
	if strings.HasPrefix(string(b), `"!`) {
		return "", fmt.Errorf("refused")
	}
	return string(b), nil
}

func writeRaw(s string) ([]byte, error) {
	if s == "" {
		return []byte("null"), nil
	}
	return []byte(s), nil
}

// Recv: V marshals by value, P by pointer, M only marshals, U only unmarshals.
type (
	strV string
	strP string
	strM string
	strU string
	rawV string
	rawP string
	rawM string
	rawU string
	numV int64
	numP int64
	numM int64
	numU int64
	objV struct {
		S string `json:"s"`
	}
	objP struct {
		S string `json:"s"`
	}
	objM struct {
		S string `json:"s"`
	}
	objU struct {
		S string `json:"s"`
	}
	mapV map[string]string
	mapP map[string]string
	mapM map[string]string
	mapU map[string]string
	slcV []string
	slcP []string
	slcM []string
	slcU []string
)

func (x strV) MarshalJSON() ([]byte, error)  { return writeAngle(string(x)) }
func (x *strP) MarshalJSON() ([]byte, error) { return writeAngle(string(*x)) }
func (x strM) MarshalJSON() ([]byte, error)  { return writeAngle(string(x)) }
func (x rawV) MarshalJSON() ([]byte, error)  { return writeRaw(string(x)) }
func (x *rawP) MarshalJSON() ([]byte, error) { return writeRaw(string(*x)) }
func (x rawM) MarshalJSON() ([]byte, error)  { return writeRaw(string(x)) }
func (x numV) MarshalJSON() ([]byte, error)  { return []byte(fmt.Sprintf(" [ %d ]", int64(x))), nil }
func (x *numP) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("[%d] ", int64(*x))), nil }
func (x numM) MarshalJSON() ([]byte, error)  { return []byte(fmt.Sprintf("[%d]", int64(x))), nil }
func (x objV) MarshalJSON() ([]byte, error)  { return writeMember(x.S) }
func (x *objP) MarshalJSON() ([]byte, error) { return writeMember(x.S) }
func (x objM) MarshalJSON() ([]byte, error)  { return writeMember(x.S) }
func (x mapV) MarshalJSON() ([]byte, error)  { return writeAngle(x["p"]) }
func (x *mapP) MarshalJSON() ([]byte, error) { return writeAngle((*x)["p"]) }
func (x mapM) MarshalJSON() ([]byte, error)  { return writeAngle(x["p"]) }
func (x slcV) MarshalJSON() ([]byte, error)  { return writeAngle(strings.Join(x, "")) }
func (x *slcP) MarshalJSON() ([]byte, error) { return writeAngle(strings.Join(*x, "")) }
func (x slcM) MarshalJSON() ([]byte, error)  { return writeAngle(strings.Join(x, "")) }

func setTo(p interface{}, s string, err error) error {
	if err == nil {
		setPayload(reflect.ValueOf(p).Elem(), s)
	}
	return err
}
func (x *strV) UnmarshalJSON(b []byte) error { s, err := readAngle(b); return setTo(x, s, err) }
func (x *strP) UnmarshalJSON(b []byte) error { s, err := readAngle(b); return setTo(x, s, err) }
func (x *strU) UnmarshalJSON(b []byte) error { s, err := readAngle(b); return setTo(x, s, err) }
func (x *rawV) UnmarshalJSON(b []byte) error { s, err := readRaw(b); return setTo(x, s, err) }
func (x *rawP) UnmarshalJSON(b []byte) error { s, err := readRaw(b); return setTo(x, s, err) }
func (x *rawU) UnmarshalJSON(b []byte) error { s, err := readRaw(b); return setTo(x, s, err) }
func (x *objV) UnmarshalJSON(b []byte) error { s, err := readMember(b); return setTo(x, s, err) }
func (x *objP) UnmarshalJSON(b []byte) error { s, err := readMember(b); return setTo(x, s, err) }
func (x *objU) UnmarshalJSON(b []byte) error { s, err := readMember(b); return setTo(x, s, err) }
func (x *mapV) UnmarshalJSON(b []byte) error { s, err := readAngle(b); return setTo(x, s, err) }
func (x *mapP) UnmarshalJSON(b []byte) error { s, err := readAngle(b); return setTo(x, s, err) }
func (x *mapU) UnmarshalJSON(b []byte) error { s, err := readAngle(b); return setTo(x, s, err) }
func (x *slcV) UnmarshalJSON(b []byte) error { s, err := readAngle(b); return setTo(x, s, err) }
func (x *slcP) UnmarshalJSON(b []byte) error { s, err := readAngle(b); return setTo(x, s, err) }
func (x *slcU) UnmarshalJSON(b []byte) error { s, err := readAngle(b); return setTo(x, s, err) }
func (x *numV) UnmarshalJSON(b []byte) error {
	n, err := readOne(b)
	return setTo(x, fmt.Sprint(n), err)
}
func (x *numP) UnmarshalJSON(b []byte) error {
	n, err := readOne(b)
	return setTo(x, fmt.Sprint(n), err)
}
func (x *numU) UnmarshalJSON(b []byte) error {
	n, err := readOne(b)
	return setTo(x, fmt.Sprint(n), err)
}

var customs = map[string]reflect.Type{}

func init() {
	for _, x := range []interface{}{strV(""), strP(""), strM(""), strU(""), rawV(""), rawP(""), rawM(""), rawU(""), numV(0), numP(0), numM(0), numU(0),
		objV{}, objP{}, objM{}, objU{}, mapV{}, mapP{}, mapM{}, mapU{}, slcV{}, slcP{}, slcM{}, slcU{}} {
		customs[reflect.TypeOf(x).Name()] = reflect.TypeOf(x)
	}
}

var shapes = []string{"str", "raw", "num", "obj", "map", "slc"}
var recvs = []string{"v", "p", "m", "u"}

func customOf(rt reflect.Type) *ty {
	if n := rt.Name(); customs[n] == rt {
		return &ty{K: "cust", D: n[:3], Name: strings.ToLower(n[3:])}
	}
	return nil
}

// payload is what a value of a custom type holds.
func payload(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Struct:
		return v.Field(0).String()
	case reflect.Map:
		if v.Len() > 1 || v.Len() == 1 && !v.MapIndex(reflect.ValueOf("p")).IsValid() {
			return "other keys"
		}
		if v.Len() == 0 {
			return ""
		}
		return v.MapIndex(reflect.ValueOf("p")).String()
	}
	if v.Len() == 0 {
		return ""
	}
	if v.Len() > 1 {
		return "more elements"
	}
	return v.Index(0).String()
}

func setPayload(v reflect.Value, s string) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(s)
	case reflect.Int64:
		n, err := strconv.ParseInt(s, 10, 64)
		must(err)
		v.SetInt(n)
	case reflect.Struct:
		v.Field(0).SetString(s)
	case reflect.Map:
		v.Set(reflect.Zero(v.Type()))
		if s != "" {
			v.Set(reflect.MakeMap(v.Type()))
			v.SetMapIndex(reflect.ValueOf("p"), reflect.ValueOf(s))
		}
	default:
		v.Set(reflect.Zero(v.Type()))
		if s != "" {
			v.Set(reflect.Append(v, reflect.ValueOf(s)))
		}
	}
}

// ---------------------------------------------------------------------
// Structs with hooks. N counts the runs; At is what the struct was then.

type (
	hook0 struct {
		N  int64  `json:"-"`
		At string `json:"-"`
		V  int64  `json:"v"`
		S  string `json:"s"`
	}
	hookIn struct {
		X  hook0            `json:"x"`
		P  *hook0           `json:"p"`
		L  []hook0          `json:"l"`
		M  map[string]hook0 `json:"m"`
		N  int64            `json:"-"`
		At string           `json:"-"`
	}
	hookEmb struct {
		HookE
		W  int64  `json:"w"`
		N  int64  `json:"-"`
		At string `json:"-"`
	}
	hookEmbP struct {
		*HookE
		W  int64  `json:"w"`
		N  int64  `json:"-"`
		At string `json:"-"`
	}
	HookE struct {
		V  int64  `json:"v"`
		Q  *hook0 `json:"q"`
		N  int64  `json:"-"`
		At string `json:"-"`
	}
	hookTwo struct {
		Z int64 `json:"z"`
		HookM
		N  int64  `json:"-"`
		At string `json:"-"`
	}
	HookM struct {
		HookE
		W  int64  `json:"w"`
		N  int64  `json:"-"`
		At string `json:"-"`
	}
	hookSide struct {
		HookE
		HookK
		Plain
		N  int64  `json:"-"`
		At string `json:"-"`
	}
	HookK struct {
		C  strV   `json:"c"`
		R  []rawP `json:"r"`
		N  int64  `json:"-"`
		At string `json:"-"`
	}
	Plain struct {
		T string `json:"t"`
		U *bool  `json:"u"`
	}
	// a hook declared on the value gets a copy of it; there is one HookV in each of these
	HookV struct {
		V  int64  `json:"v"`
		Y  *bool  `json:"y"`
		N  int64  `json:"-"`
		At string `json:"-"`
	}
	hookVIn struct {
		X HookV `json:"x"`
		W int64 `json:"w"`
	}
	hookVPtr struct {
		W int64  `json:"w"`
		X *HookV `json:"x"`
	}
	hookVSide struct {
		HookV
		HookK
		W int64 `json:"w"`
	}
	hookVSideP struct {
		W int64 `json:"w"`
		*HookV
		*HookK
	}
	// two hooks nowhere stated: the embedded one is promoted
	HookInherit struct {
		HookE
		W int64 `json:"w"`
	}
	HookInheritP struct {
		*HookE
		W int64 `json:"w"`
	}
)

func (h *hook0) AfterUnmarshal()    { ran(h) }
func (h *hookIn) AfterUnmarshal()   { ran(h) }
func (h *hookEmb) AfterUnmarshal()  { ran(h) }
func (h *hookEmbP) AfterUnmarshal() { ran(h) }
func (h *HookE) AfterUnmarshal()    { ran(h) }
func (h *hookTwo) AfterUnmarshal()  { ran(h) }
func (h *HookM) AfterUnmarshal()    { ran(h) }
func (h *hookSide) AfterUnmarshal() { ran(h) }
func (h *HookK) AfterUnmarshal()    { ran(h) }

func (h HookV) AfterUnmarshal() {
	valueRan = append(valueRan, printOf(hooked[reflect.TypeOf(h)], reflect.ValueOf(h)))
}

// valueRan has what HookV's hook saw, each time it ran.
var valueRan []string

// credit enters the runs of HookV's hook in the one HookV that v holds.
func credit(v reflect.Value) {
	saw := valueRan
	valueRan = nil
	if len(saw) == 0 {
		return
	}
	var in func(v reflect.Value) *HookV
	in = func(v reflect.Value) *HookV {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				return in(v.Elem())
			}
		case reflect.Struct:
			if v.Type() == reflect.TypeOf(HookV{}) {
				return v.Addr().Interface().(*HookV)
			}
			for i := 0; i < v.NumField(); i++ {
				if h := in(v.Field(i)); h != nil {
					return h
				}
			}
		}
		return nil
	}
	h := in(v)
	if h == nil {
		panic("a hook ran for nothing")
	}
	fresh := saw[len(saw)-1] == printOf(hooked[reflect.TypeOf(*h)], reflect.ValueOf(*h))
	h.N += int64(len(saw))
	h.At = "not as it is now"
	if fresh {
		h.At = printOf(hooked[reflect.TypeOf(*h)], reflect.ValueOf(*h))
	}
}

var hooked = map[reflect.Type]*ty{}
var hookedBy = map[string]*ty{}
var hookTys, valueHookTys []*ty

func ran(h interface{}) {
	v := reflect.ValueOf(h).Elem()
	n := v.FieldByName("N")
	n.SetInt(n.Int() + 1)
	v.FieldByName("At").SetString(printOf(hooked[v.Type()], v))
}

// printOf is everything a hooked struct holds but At itself.
func printOf(t *ty, v reflect.Value) string {
	xs := L{}
	for i, f := range t.F {
		if f.T.K != "fresh" {
			xs = append(xs, encField(f, v.Field(i)))
		}
	}
	b, err := json.Marshal(xs)
	must(err)
	return string(b)
}

func isFresh(t *ty, v reflect.Value) bool {
	at := v.FieldByName("At").String()
	return at != "" && at == printOf(t, v)
}

// describe is the description of a static type.
func describe(rt reflect.Type) *ty {
	if c := customOf(rt); c != nil {
		return c
	}
	if h := hooked[rt]; h != nil {
		return h
	}
	switch rt.Kind() {
	case reflect.Ptr:
		return &ty{K: "ptr", E: describe(rt.Elem())}
	case reflect.Slice:
		return &ty{K: "slice", E: describe(rt.Elem())}
	case reflect.Map:
		return &ty{K: "map", E: describe(rt.Elem())}
	case reflect.Struct:
		t := &ty{K: "struct", rt: rt}
		_, t.Hook = reflect.PtrTo(rt).MethodByName("AfterUnmarshal")
		for i := 0; i < rt.NumField(); i++ {
			sf := rt.Field(i)
			f := &fld{Go: sf.Name}
			if js, ok := sf.Tag.Lookup("json"); ok {
				f.HasJson, f.Json = true, js
			}
			ft := sf.Type
			if sf.Anonymous {
				f.Emb = "v"
				if ft.Kind() == reflect.Ptr {
					f.Emb, ft = "p", ft.Elem()
				}
			}
			if f.T = describe(ft); sf.Name == "At" {
				f.T = &ty{K: "fresh"}
			}
			t.F = append(t.F, f)
		}
		return t
	}
	return tyOf(rt)
}

func init() {
	reg := func(x interface{}) *ty {
		rt := reflect.TypeOf(x)
		t := describe(rt)
		hooked[rt] = t
		hookedBy[keyOf(t.enc())] = t
		return t
	}
	reg(HookE{})
	reg(HookM{})
	reg(HookK{})
	for _, x := range []interface{}{hook0{}, hookIn{}, hookEmb{}, hookEmbP{}, HookE{}, hookTwo{}, hookSide{}, HookK{}} {
		hookTys = append(hookTys, reg(x))
	}
	reg(HookV{})
	for _, x := range []interface{}{HookV{}, hookVIn{}, hookVPtr{}, hookVSide{}, hookVSideP{}} {
		valueHookTys = append(valueHookTys, reg(x))
	}
	inh, inhP := describe(reflect.TypeOf(HookInherit{})), describe(reflect.TypeOf(HookInheritP{}))
	inh.Hook, inhP.Hook = false, false
	hookedBy["inherit"], hookedBy["inheritp"] = inh, inhP
}

func keyOf(x interface{}) string {
	b, err := json.Marshal(jsonRound(x))
	must(err)
	return string(b)
}

// ---------------------------------------------------------------------

func randCustom(r *rand.Rand) *ty {
	return &ty{K: "cust", D: shapes[r.Intn(len(shapes))], Name: recvs[r.Intn(len(recvs))]}
}

var payloads = []string{"", "x", "p q", "\"", "<>", "é", "0", "a\\b", "\n"}
var raws = []string{"", "1", "\"s\"", "[1,2.5]", "{\"a\":{\"b\":null}}", "true", "[]", "null", "\"<x>\"", "-7"}

func randPayload(r *rand.Rand, shape string, bad bool) string {
	bad = bad && r.Intn(8) == 0
	switch shape {
	case "num":
		return fmt.Sprint(r.Intn(5) - 2)
	case "raw":
		if bad {
			return []string{"{", "\"", "[1", "!", "tru", "{\"a\" 1}", "1 2"}[r.Intn(7)]
		}
		return raws[r.Intn(len(raws))]
	}
	if bad {
		return "!bad"
	}
	return payloads[r.Intn(len(payloads))]
}

// randCustomDoc is a document a custom type accepts, or nearly.
func randCustomDoc(r *rand.Rand, t *ty) *V {
	if r.Intn(10) == 0 {
		return randDocOf(r, "")
	}
	s := randPayload(r, "str", false)
	switch t.D {
	case "num":
		v := &V{T: 'a'}
		for n := []int{1, 1, 1, 1, 0, 2}[r.Intn(6)]; n > 0; n-- {
			v.A = append(v.A, &V{T: 'i', I: int64(r.Intn(9) - 3)})
		}
		if r.Intn(8) == 0 {
			v.A = append(v.A[:0], &V{T: 's', S: "1"})
		}
		return v
	case "raw":
		if r.Intn(8) == 0 {
			return &V{T: 's', S: "!no"}
		}
		return randDocOf(r, "")
	case "obj":
		v := &V{T: 'o', O: []KV{{"custom", &V{T: 's', S: s}}}}
		switch r.Intn(10) {
		case 0:
			v.O[0].K = "Custom"
		case 1:
			v.O = append(v.O, KV{"other", &V{T: 'i'}})
		case 2:
			v.O[0].V = &V{T: 'i', I: 1}
		}
		return v
	}
	if r.Intn(8) == 0 {
		return &V{T: 's', S: s}
	}
	return &V{T: 's', S: "<" + s + ">"}
}

// marshalTry marshals a value some part of which may refuse.
func marshalTry(r *rand.Rand, t *ty, x gv, all bool) (rec M) {
	v := decGo(r, t, jsonRound(x))
	rec = M{"k": "try", "T": t.enc(), "v": x, "all": all, "st": "ok", "text": L{}}
	if r.Intn(2) == 0 {
		p := reflect.New(t.typ())
		p.Elem().Set(v)
		v = p
		rec["T"], rec["v"] = L{"ptr", t.enc()}, gv{"p", x}
	}
	defer func() {
		if e := recover(); e != nil {
			rec["st"] = "err"
		}
	}()
	rec["text"] = BS(marshalOf(v, all).String())
	return rec
}

func c21(c *Ctx) {
	structCases(c)
	c.Case("hook-inherited", func(r *rand.Rand) M {
		t := hookedBy["inherit"]
		return unmarshalRec(r, t, encGo(t, reflect.New(t.typ()).Elem()), &V{T: 'o', O: []KV{{"v", &V{T: 'i', I: 3}}, {"w", &V{T: 'i', I: 4}}}})
	})
	c.Case("hook-inherited-nil", func(r *rand.Rand) M {
		t := hookedBy["inheritp"]
		return unmarshalRec(r, t, encGo(t, reflect.New(t.typ()).Elem()), &V{T: 'o', O: []KV{{"w", &V{T: 'i', I: 4}}}})
	})
	// every custom type by itself, and right inside everything
	for _, sh := range shapes {
		for _, rc := range recvs {
			t := &ty{K: "cust", D: sh, Name: rc}
			around := []*ty{t, {K: "ptr", E: t}, {K: "ptr", E: &ty{K: "ptr", E: t}}, {K: "slice", E: t}, {K: "array", N: 2, E: t}, {K: "map", E: t}, {K: "slice", E: &ty{K: "ptr", E: t}}, {K: "map", E: &ty{K: "ptr", E: t}},
				{K: "struct", F: []*fld{{Go: "A", T: t}, {Go: "B", T: &ty{K: "ptr", E: t}}, {Go: "C", HasJson: true, Json: "c", Opts: []string{"omitempty", "string"}, T: t}, {Go: "D", HasJson: true, Json: "d", Opts: []string{"omitzero", "string"}, T: &ty{K: "ptr", E: t}}}}}
			for _, t := range around {
				t := t
				for n := c.Scale(3, 12); n > 0; n-- {
					c.Case("position", func(r *rand.Rand) M {
						if r.Intn(3) == 0 {
							return marshalTry(r, t, randGo(r, t, &valCfg{six: true, bad: true}, 2), r.Intn(2) == 0)
						}
						return unmarshalRec(r, t, randGo(r, t, &valCfg{six: true}, 2), randFor(r, t, 3, 20))
					})
				}
			}
		}
	}
	cfg := &tyCfg{any: true, names: true, cust: true}
	for n := c.Scale(1200, 20000); n > 0; n-- {
		c.Case("marshal", func(r *rand.Rand) M {
			t := rootTy(r, cfg, 1+r.Intn(4))
			return marshalTry(r, t, randGo(r, t, &valCfg{six: true, bad: r.Intn(3) == 0}, 3), r.Intn(2) == 0)
		})
	}
	for n := c.Scale(1200, 20000); n > 0; n-- {
		c.Case("unmarshal", func(r *rand.Rand) M {
			t := rootTy(r, cfg, 1+r.Intn(4))
			return unmarshalRec(r, t, randGo(r, t, &valCfg{six: true, micro: true}, 3), randFor(r, t, 3, 20))
		})
	}
	hcfg := &tyCfg{hooks: true, cust: true, names: true}
	for n := c.Scale(2000, 30000); n > 0; n-- {
		c.Case("hooks", func(r *rand.Rand) M {
			t := hookTys[r.Intn(len(hookTys))]
			if n := r.Intn(12); n == 0 {
				t = valueHookTys[r.Intn(len(valueHookTys))]
			} else if n < 6 {
				t = rootTy(r, hcfg, 1+r.Intn(3))
			}
			old := encGo(t, reflect.New(t.typ()).Elem())
			if r.Intn(2) == 0 {
				old = randGo(r, t, &valCfg{six: true, micro: true}, 3)
			}
			d := randFor(r, t, 3, 12)
			if isIn(valueHookTys, t) && d.T == 'o' { // one object for the one HookV
				for i, n := len(d.O)-1, 0; i >= 0; i-- {
					if strings.ContainsAny(d.O[i].K, "xX") {
						if n++; n > 1 {
							d.O = append(append([]KV{}, d.O[:i]...), d.O[i+1:]...)
						}
					}
				}
			}
			return unmarshalRec(r, t, old, d)
		})
	}
}

func isIn(ts []*ty, t *ty) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

var _ = jsonutils.JSONNull
