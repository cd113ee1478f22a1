package main

// Go types and values as spec/JStruct.tla describes them.

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

type ty struct {
	K      string // bool string tri time any doc int float ptr slice array map docp docv struct
	Bits   int
	Signed bool
	N      int
	D      string // kind of document, shape of a custom type
	Name   string // receiver of a custom type
	Hook   bool   // a struct with a hook
	Key    string // what the keys of a map are when not string
	E      *ty
	F      []*fld
	Alt    int // which of the Go types of this description: see altTypes
	rt     reflect.Type
}

type fld struct {
	Go      string
	Json    string
	HasJson bool
	Opts    []string
	Name    string
	Emb     string // "", "v", "p"
	Dep     string
	EDep    [][2]string
	T       *ty
}

func strs(xs []string) L {
	out := L{}
	for _, x := range xs {
		out = append(out, x)
	}
	return out
}

func (t *ty) enc() L {
	switch t.K {
	case "int":
		return L{"int", t.Bits, t.Signed}
	case "float":
		return L{"float", t.Bits}
	case "map":
		if t.Key != "" {
			return L{t.K, t.E.enc(), t.Key}
		}
		return L{t.K, t.E.enc()}
	case "ptr", "slice":
		return L{t.K, t.E.enc()}
	case "array":
		return L{"array", t.N, t.E.enc()}
	case "docp", "docv":
		return L{t.K, t.D}
	case "cust":
		return L{t.K, t.D, t.Name}
	case "iface":
		return t.encIface()
	case "struct":
		fs := L{}
		for _, f := range t.F {
			js := L{}
			if f.HasJson {
				js = L{BS(f.Json), strs(f.Opts)}
			}
			ed := L{}
			for _, p := range f.EDep {
				ed = append(ed, L{BS(p[0]), BS(p[1])})
			}
			fs = append(fs, M{"go": BS(f.Go), "json": js, "name": BS(f.Name), "emb": f.Emb, "dep": BS(f.Dep), "edep": ed, "t": f.T.enc()})
		}
		if t.Hook {
			return L{"struct", fs, "hook"}
		}
		return L{"struct", fs}
	}
	return L{t.K}
}

// Maps have keys of several types; only those that are strings can be unmarshalled into.

type keyName string

var keyTypes = map[string]reflect.Type{"": reflect.TypeOf(""), "named": reflect.TypeOf(keyName("")), "int": reflect.TypeOf(0), "uint8": reflect.TypeOf(uint8(0)), "bool": reflect.TypeOf(false), "any": reflect.TypeOf((*interface{})(nil)).Elem()}

func (c *tyCfg) mapKey(r *rand.Rand) string {
	if c.anyKey && r.Intn(3) == 0 {
		return []string{"named", "int", "uint8", "bool", "any"}[r.Intn(5)]
	}
	if r.Intn(4) == 0 {
		return "named"
	}
	return ""
}

func mapKey(kind, s string) reflect.Value {
	n, err := strconv.Atoi(s)
	switch kind {
	case "named":
		return reflect.ValueOf(keyName(s))
	case "int":
		must(err)
		return reflect.ValueOf(n)
	case "uint8":
		must(err)
		return reflect.ValueOf(uint8(n))
	case "bool":
		return reflect.ValueOf(s == "true")
	case "any":
		if err == nil && strconv.Itoa(n) == s {
			return reflect.ValueOf(n)
		}
	}
	return reflect.ValueOf(s)
}

func randMapKey(r *rand.Rand, kind string) string {
	switch kind {
	case "int":
		return strconv.Itoa([]int{0, 1, -1, 2, 10, 100, 9, -10, 1 << 40}[r.Intn(9)])
	case "uint8":
		return strconv.Itoa([]int{0, 1, 2, 10, 100, 255, 9}[r.Intn(7)])
	case "bool":
		return strconv.FormatBool(r.Intn(2) == 0)
	}
	return []string{"a", "b", "A", "", "k 1", "é", "0", "zz"}[r.Intn(8)]
}

func decTy(x interface{}) *ty {
	a := x.([]interface{})
	t := &ty{K: a[0].(string)}
	switch t.K {
	case "int":
		t.Bits, t.Signed = int(a[1].(float64)), a[2].(bool)
	case "float":
		t.Bits = int(a[1].(float64))
	case "ptr", "slice", "map":
		t.E = decTy(a[1])
		if len(a) == 3 {
			t.Key = a[2].(string)
		}
	case "array":
		t.N, t.E = int(a[1].(float64)), decTy(a[2])
	case "docp", "docv":
		t.D = a[1].(string)
	case "cust":
		t.D, t.Name = a[1].(string), a[2].(string)
	case "iface":
		return decIface(x)
	case "struct":
		if len(a) == 3 {
			if h := hookedBy[keyOf(x)]; h != nil {
				return h
			}
			panic("driver: no struct with such a hook")
		}
		for _, y := range a[1].([]interface{}) {
			m := y.(map[string]interface{})
			f := &fld{Go: decBytes(m["go"]), Name: decBytes(m["name"]), Emb: m["emb"].(string), Dep: decBytes(m["dep"]), T: decTy(m["t"])}
			if js := m["json"].([]interface{}); len(js) > 0 {
				f.HasJson, f.Json = true, decBytes(js[0])
				for _, o := range js[1].([]interface{}) {
					f.Opts = append(f.Opts, o.(string))
				}
			}
			for _, p := range m["edep"].([]interface{}) {
				q := p.([]interface{})
				f.EDep = append(f.EDep, [2]string{decBytes(q[0]), decBytes(q[1])})
			}
			t.F = append(t.F, f)
		}
	}
	return t
}

var docTypes = map[string]reflect.Type{
	"dict": jsonutils.JSONDictType, "array": jsonutils.JSONArrayType, "string": jsonutils.JSONStringType,
	"int": jsonutils.JSONIntType, "float": jsonutils.JSONFloatType, "bool": jsonutils.JSONBoolType,
}
var intTypes = map[int][2]reflect.Type{
	8:  {reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0))},
	16: {reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0))},
	32: {reflect.TypeOf(int32(0)), reflect.TypeOf(uint32(0))},
	64: {reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0))},
}

// Declared types of plain kinds, and int and uint, are like the plain types.
type (
	aBool   bool
	aText   string
	aInt    int
	aInt8   int8
	aInt16  int16
	aInt32  int32
	aInt64  int64
	aUint   uint
	aUint8  uint8
	aUint16 uint16
	aUint32 uint32
	aUint64 uint64
	aF32    float32
	aF64    float64
	aTexts  []string
	aBytes  []byte
	aPair   [2]aText
	aNames  map[string]string
	aRec    struct {
		Id   int
		Name aText `json:"the_name,omitempty"`
		Tags aTexts
		Next *struct {
			Flag aBool `json:"flag,allowfalse" name:"FLAG"`
		}
		hidden int
	}
)

var altTypes = map[string][]reflect.Type{
	"bool":    {reflect.TypeOf(aBool(false))},
	"string":  {reflect.TypeOf(aText(""))},
	"int8":    {reflect.TypeOf(aInt8(0))},
	"int16":   {reflect.TypeOf(aInt16(0))},
	"int32":   {reflect.TypeOf(aInt32(0))},
	"int64":   {reflect.TypeOf(0), reflect.TypeOf(aInt(0)), reflect.TypeOf(aInt64(0)), reflect.TypeOf(0)},
	"uint8":   {reflect.TypeOf(aUint8(0))},
	"uint16":  {reflect.TypeOf(aUint16(0))},
	"uint32":  {reflect.TypeOf(aUint32(0))},
	"uint64":  {reflect.TypeOf(uint(0)), reflect.TypeOf(aUint(0)), reflect.TypeOf(aUint64(0)), reflect.TypeOf(uint(0))},
	"float32": {reflect.TypeOf(aF32(0))},
	"float64": {reflect.TypeOf(aF64(0))},
}

func (t *ty) alt() reflect.Type {
	k := t.K
	if k == "int" || k == "float" {
		k += strconv.Itoa(t.Bits)
		if t.K == "int" && !t.Signed {
			k = "u" + k
		}
	}
	if a := altTypes[k]; t.Alt > 0 && len(a) > 0 {
		return a[t.Alt%len(a)]
	}
	return nil
}

// declared are types declared with a name, of more than one part.
func declared(r *rand.Rand) *ty {
	text := &ty{K: "string", Alt: 1}
	switch r.Intn(5) {
	case 0:
		return &ty{K: "slice", E: &ty{K: "string"}, rt: reflect.TypeOf(aTexts(nil))}
	case 1:
		return &ty{K: "slice", E: &ty{K: "int", Bits: 8}, rt: reflect.TypeOf(aBytes(nil))}
	case 2:
		return &ty{K: "array", N: 2, E: text, rt: reflect.TypeOf(aPair{})}
	case 3:
		return &ty{K: "map", E: &ty{K: "string"}, rt: reflect.TypeOf(aNames(nil))}
	}
	rec := reflect.TypeOf(aRec{})
	return &ty{K: "struct", rt: rec, F: []*fld{
		{Go: "Id", T: &ty{K: "int", Bits: 64, Signed: true, Alt: 4}},
		{Go: "Name", Json: "the_name", HasJson: true, Opts: []string{"omitempty"}, T: text},
		{Go: "Tags", T: &ty{K: "slice", E: &ty{K: "string"}, rt: reflect.TypeOf(aTexts(nil))}},
		{Go: "Next", T: &ty{K: "ptr", E: &ty{K: "struct", rt: rec.Field(3).Type.Elem(), F: []*fld{
			{Go: "Flag", Json: "flag", HasJson: true, Opts: []string{"allowfalse"}, Name: "FLAG", T: &ty{K: "bool", Alt: 1}}}}}},
	}}
}

func (f *fld) tag() reflect.StructTag {
	var ts []string
	if f.HasJson {
		ts = append(ts, "json:"+strconv.Quote(strings.Join(append([]string{f.Json}, f.Opts...), ",")))
	}
	if f.Name != "" {
		ts = append(ts, "name:"+strconv.Quote(f.Name))
	}
	if f.Dep != "" {
		ts = append(ts, "yunion-deprecated-by:"+strconv.Quote(f.Dep))
	}
	for _, p := range f.EDep {
		ts = append(ts, p[0]+"->yunion-deprecated-by:"+strconv.Quote(p[1]))
	}
	return reflect.StructTag(strings.Join(ts, " "))
}

// typ is the Go type that is described.
func (t *ty) typ() reflect.Type {
	if t.rt == nil {
		t.rt = t.mk()
	}
	return t.rt
}

func (t *ty) mk() reflect.Type {
	if a := t.alt(); a != nil {
		return a
	}
	switch t.K {
	case "bool":
		return reflect.TypeOf(false)
	case "string":
		return reflect.TypeOf("")
	case "tri":
		return tristate.TriStateType
	case "time":
		return reflect.TypeOf(time.Time{})
	case "any":
		return reflect.TypeOf((*interface{})(nil)).Elem()
	case "doc":
		return jsonutils.JSONObjectType
	case "int":
		if t.Signed {
			return intTypes[t.Bits][0]
		}
		return intTypes[t.Bits][1]
	case "float":
		if t.Bits == 32 {
			return reflect.TypeOf(float32(0))
		}
		return reflect.TypeOf(float64(0))
	case "ptr":
		return reflect.PtrTo(t.E.typ())
	case "slice":
		return reflect.SliceOf(t.E.typ())
	case "array":
		return reflect.ArrayOf(t.N, t.E.typ())
	case "map":
		return reflect.MapOf(keyTypes[t.Key], t.E.typ())
	case "docv":
		return docTypes[t.D]
	case "docp":
		return reflect.PtrTo(docTypes[t.D])
	case "cust":
		return customs[t.D+strings.ToUpper(t.Name)]
	case "struct":
		var fs []reflect.StructField
		for _, f := range t.F {
			ft := f.T.typ()
			if f.Emb == "p" {
				ft = reflect.PtrTo(ft)
			}
			fs = append(fs, reflect.StructField{Name: f.Go, Type: ft, Tag: f.tag(), Anonymous: f.Emb != ""})
		}
		return reflect.StructOf(fs)
	}
	panic("driver: type " + t.K)
}

// gv is a Go value as JStruct.tla writes it.
type gv = L

func encGo(t *ty, v reflect.Value) gv {
	switch t.K {
	case "bool":
		return gv{"b", v.Bool()}
	case "int":
		if t.Signed {
			return gv{"i", BS(strconv.FormatInt(v.Int(), 10))}
		}
		return gv{"i", BS(strconv.FormatUint(v.Uint(), 10))}
	case "float":
		return encFloat(v.Float(), t.Bits)
	case "string", "tri":
		return gv{"s", BS(v.String())}
	case "time":
		x := encTime(v.Interface().(time.Time))
		return gv{"t", x[1], x[2], x[3]}
	case "ptr":
		if v.IsNil() {
			return gv{"nil"}
		}
		return gv{"p", encGo(t.E, v.Elem())}
	case "slice", "array":
		if t.K == "slice" && v.IsNil() {
			return gv{"nil"}
		}
		xs := L{}
		for i := 0; i < v.Len(); i++ {
			xs = append(xs, encGo(t.E, v.Index(i)))
		}
		return gv{"l", xs}
	case "map":
		if v.IsNil() {
			return gv{"nil"}
		}
		var ks []string
		at := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k.Interface())
			ks = append(ks, s)
			at[s] = v.MapIndex(k)
		}
		sort.Strings(ks)
		ms := L{}
		for _, k := range ks {
			ms = append(ms, L{BS(k), encGo(t.E, at[k])})
		}
		return gv{"m", ms}
	case "struct":
		xs := L{}
		for i, f := range t.F {
			if f.T.K == "fresh" {
				xs = append(xs, gv{"b", isFresh(t, v)})
				continue
			}
			xs = append(xs, encField(f, v.Field(i)))
		}
		return gv{"st", xs}
	case "cust":
		return gv{"c", BS(payload(v))}
	case "iface":
		return encIfaceVal(t, v)
	case "any":
		if v.IsNil() {
			return gv{"nil"}
		}
		et := tyOf(v.Elem().Type())
		if et == nil {
			return gv{"other", v.Elem().Type().String()}
		}
		return gv{"any", et.enc(), encGo(et, v.Elem())}
	case "doc", "docp":
		if v.IsNil() {
			return gv{"nil"}
		}
		return gv{"j", EncNoId(v.Interface().(JO))}
	case "docv":
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return gv{"j", EncNoId(p.Interface().(JO))}
	}
	panic("driver: type " + t.K)
}

func encField(f *fld, x reflect.Value) gv {
	if f.Emb == "p" {
		if x.IsNil() {
			return gv{"nil"}
		}
		return gv{"p", encGo(f.T, x.Elem())}
	}
	return encGo(f.T, x)
}

// tyOf describes the types an empty interface may come to hold.
func tyOf(rt reflect.Type) *ty {
	if c := customOf(rt); c != nil {
		return c
	}
	switch rt.Kind() {
	case reflect.Bool:
		return &ty{K: "bool"}
	case reflect.String:
		return &ty{K: "string"}
	case reflect.Int64:
		return &ty{K: "int", Bits: 64, Signed: true}
	case reflect.Int32:
		return &ty{K: "int", Bits: 32, Signed: true}
	case reflect.Float64:
		return &ty{K: "float", Bits: 64}
	case reflect.Slice:
		if e := tyOf(rt.Elem()); e != nil {
			return &ty{K: "slice", E: e}
		}
	case reflect.Map:
		if e := tyOf(rt.Elem()); e != nil {
			for kind, kt := range keyTypes {
				if kt == rt.Key() {
					return &ty{K: "map", E: e, Key: kind}
				}
			}
		}
	case reflect.Interface:
		if n, ok := registryOf[rt]; ok {
			return &ty{K: "iface", Name: n, rt: rt}
		}
		if rt == jsonutils.JSONObjectType {
			return &ty{K: "doc"}
		}
		return &ty{K: "any"}
	}
	return nil
}

// decGo builds the value that is described.
func decGo(r *rand.Rand, t *ty, x interface{}) reflect.Value {
	v := reflect.New(t.typ()).Elem()
	setGo(r, t, v, x)
	return v
}

func setGo(r *rand.Rand, t *ty, v reflect.Value, x interface{}) {
	a := x.([]interface{})
	if a[0] == "nil" {
		return
	}
	switch t.K {
	case "bool":
		v.SetBool(a[1].(bool))
	case "int":
		if s := decBytes(a[1]); t.Signed {
			n, err := strconv.ParseInt(s, 10, 64)
			must(err)
			v.SetInt(n)
		} else {
			n, err := strconv.ParseUint(s, 10, 64)
			must(err)
			v.SetUint(n)
		}
	case "float":
		v.SetFloat(decV(x).F)
	case "string", "tri":
		v.SetString(decBytes(a[1]))
	case "time":
		n := func(y interface{}) int64 { return int64(y.(float64)) }
		tm := time.Unix(n(a[1])*86400+n(a[2]), n(a[3])).UTC()
		v.Set(reflect.ValueOf(tm))
	case "ptr":
		p := reflect.New(t.E.typ())
		setGo(r, t.E, p.Elem(), a[1])
		v.Set(p)
	case "slice", "array":
		xs := a[1].([]interface{})
		if t.K == "slice" {
			// what is in the room behind the elements is of no account
			n := len(xs)
			if len(a) > 2 {
				n = int(a[2].(float64))
			}
			room := reflect.MakeSlice(t.typ(), n, n)
			for i := len(xs); i < n; i++ {
				setGo(r, t.E, room.Index(i), jsonRound(randGo(r, t.E, &valCfg{six: true}, 1)))
			}
			v.Set(room.Slice(0, len(xs)))
		}
		for i, y := range xs {
			setGo(r, t.E, v.Index(i), y)
		}
	case "map":
		v.Set(reflect.MakeMap(t.typ()))
		for _, m := range a[1].([]interface{}) {
			kv := m.([]interface{})
			v.SetMapIndex(mapKey(t.Key, decBytes(kv[0])), decGo(r, t.E, kv[1]))
		}
	case "struct":
		for i, y := range a[1].([]interface{}) {
			f := t.F[i]
			fv := v.Field(i)
			if f.Emb == "p" {
				if b := y.([]interface{}); b[0] != "nil" {
					fv.Set(reflect.New(f.T.typ()))
					setGo(r, f.T, fv.Elem(), b[1])
				}
				continue
			}
			if f.T.K != "fresh" {
				setGo(r, f.T, fv, y)
			}
		}
		for i, y := range a[1].([]interface{}) {
			if t.F[i].T.K == "fresh" && y.([]interface{})[1].(bool) {
				v.Field(i).SetString(printOf(t, v))
			}
		}
	case "iface":
		setIface(r, t, v, a)
	case "cust":
		setPayload(v, decBytes(a[1]))
	case "any":
		et := decTy(a[1])
		v.Set(decGo(r, et, a[2]))
	case "doc", "docp":
		v.Set(reflect.ValueOf(build(r, decV(a[1]))))
	case "docv":
		v.Set(reflect.ValueOf(build(r, decV(a[1]))).Elem())
	default:
		panic("driver: type " + t.K)
	}
}

// ---------------------------------------------------------------------
// Random types and values.

type tyCfg struct {
	any, docs bool  // interfaces and documents as types
	names     bool  // rich names and tags
	deps      bool  // deprecated fields
	strTag    bool  // declared string form
	scalarStr bool  // ... of scalars only
	fullArr   bool  // no arrays of elements that may be left out
	cust      bool  // types with JSON methods of their own
	hooks     bool  // structs with hooks
	ifaces    []*ty // interfaces with registered types
	anyKey    bool  // maps with keys that are not strings
	big       bool  // unsigned integers beyond the signed range
}

var goNames = []string{"A", "B", "C", "Ab", "AB", "ABc", "ID", "Id", "UserID", "HTTPServer", "A1", "V2Name", "Foo_Bar", "IsOK", "NameX", "Name", "XY", "XyZ", "Ids", "Status", "URLPath", "Zone2Id"}
var tagNames = []string{"a", "b", "c", "d", "x", "id", "user_id", "a-b", "x.y", "A", "Name", "foo_bar", "k1", "_", "zz", "Ab"}

func randScalar(r *rand.Rand) *ty {
	t := randPlain(r)
	t.Alt = max(0, r.Intn(10)-4)
	return t
}

func randPlain(r *rand.Rand) *ty {
	switch r.Intn(8) {
	case 0:
		return &ty{K: "bool"}
	case 1, 2:
		return &ty{K: "string"}
	case 3:
		return &ty{K: "float", Bits: []int{64, 64, 32}[r.Intn(3)]}
	case 4:
		return &ty{K: "tri"}
	case 5:
		return &ty{K: "time"}
	default:
		return &ty{K: "int", Bits: []int{8, 16, 32, 64, 64}[r.Intn(5)], Signed: r.Intn(3) > 0}
	}
}

func randTy(r *rand.Rand, c *tyCfg, depth int) *ty {
	k := r.Intn(16)
	if depth <= 0 {
		k = 0
	}
	if c.hooks && r.Intn(4) == 0 {
		return hookTys[r.Intn(len(hookTys))]
	}
	if c.ifaces != nil && r.Intn(3) == 0 {
		return c.ifaces[r.Intn(len(c.ifaces))]
	}
	switch {
	case k <= 6:
		if c.cust && r.Intn(2) == 0 {
			return randCustom(r)
		}
		if c.docs && r.Intn(4) == 0 {
			kind := []string{"dict", "array", "string", "int", "float", "bool"}[r.Intn(6)]
			return &ty{K: []string{"docp", "docv"}[r.Intn(2)], D: kind}
		}
		if c.docs && r.Intn(6) == 0 {
			return &ty{K: "doc"}
		}
		if c.any && r.Intn(6) == 0 {
			return &ty{K: "any"}
		}
		return randScalar(r)
	case k <= 8:
		e := randTy(r, c, depth-1)
		if e.K == "doc" || e.K == "any" || e.K == "docv" || e.K == "iface" {
			e = randScalar(r)
		}
		return &ty{K: "ptr", E: e}
	case k <= 10:
		if r.Intn(8) == 0 {
			return &ty{K: "slice", E: &ty{K: "int", Bits: 8, Signed: r.Intn(4) == 0}}
		}
		return &ty{K: "slice", E: randTy(r, c, depth-1)}
	case k == 11:
		e := randTy(r, c, depth-1)
		if c.fullArr && (e.K == "ptr" || e.K == "slice" || e.K == "map" || e.K == "tri" || e.K == "any" || e.K == "doc" || e.K == "docp" || e.K == "iface") {
			e = &ty{K: "string"}
		}
		return &ty{K: "array", N: r.Intn(4), E: e}
	case k <= 13:
		return &ty{K: "map", E: randTy(r, c, depth-1), Key: c.mapKey(r)}
	default:
		if r.Intn(8) == 0 {
			return declared(r)
		}
		return randStruct(r, c, depth)
	}
}

type nameSet struct {
	gos, names map[string]bool // names: tag names, and squeezed field names after \x00
}

func isScalar(t *ty) bool {
	switch t.K {
	case "bool", "string", "tri", "time", "int", "float":
		return true
	case "ptr":
		return isScalar(t.E)
	}
	return false
}

func squeeze(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if c := s[i] | 0x20; c >= 'a' && c <= 'z' {
			b = append(b, c)
		}
	}
	return string(b)
}

// free takes the name of a field unless another field might have it.
func (ns *nameSet) free(f *fld) bool {
	tag := f.Name
	if tag == "" {
		tag = f.Json
	}
	key := "t" + tag
	if tag == "" {
		key = "a" + squeeze(f.Go)
		if ns.names["s"+squeeze(f.Go)] || ns.names[key] {
			return false
		}
	} else if ns.names[key] || ns.names["a"+squeeze(tag)] {
		return false
	}
	ns.names[key] = true
	if tag != "" {
		ns.names["s"+squeeze(tag)] = true
	}
	return true
}

func randStruct(r *rand.Rand, c *tyCfg, depth int) *ty {
	return randStructIn(r, c, depth, &nameSet{map[string]bool{}, map[string]bool{}}, false)
}

// marshalName is the driver's own idea of a field's name, used to keep names apart.
func (f *fld) marshalName() string {
	if f.Name != "" {
		return f.Name
	}
	if f.Json != "" {
		return f.Json
	}
	return "\x00" + strings.ToLower(strings.ReplaceAll(f.Go, "_", ""))
}

func randStructIn(r *rand.Rand, c *tyCfg, depth int, ns *nameSet, inPtr bool) *ty {
	t := &ty{K: "struct"}
	local := map[string]bool{}
	for n := 1 + r.Intn(5); n > 0; n-- {
		f := &fld{Go: goNames[r.Intn(len(goNames))]}
		if ns.gos[f.Go] || local[f.Go] {
			continue
		}
		local[f.Go] = true
		if depth > 1 && r.Intn(6) == 0 && !inPtr { // nothing is embedded in an embedded pointer, see known-findings.txt
			f.Emb = []string{"v", "v", "p"}[r.Intn(3)]
			if c.names && r.Intn(2) == 0 { // tags of its own do not matter
				f.HasJson, f.Json = true, []string{"", "emb"}[r.Intn(2)]
			}
			f.T = randStructIn(r, c, depth-1, ns, f.Emb == "p")
			t.F = append(t.F, f)
			continue
		}
		if r.Intn(2) == 0 {
			f.HasJson = true
			if r.Intn(3) > 0 {
				f.Json = tagNames[r.Intn(len(tagNames))]
			} else if c.names && r.Intn(6) == 0 {
				f.Json = "-"
			}
			for _, o := range [][]string{{"omitempty", "allowempty"}, {"omitzero", "allowzero"}, {"omitfalse", "allowfalse"}} {
				if r.Intn(3) == 0 {
					f.Opts = append(f.Opts, o[r.Intn(2)])
				}
			}
			if c.strTag && r.Intn(3) == 0 {
				f.Opts = append(f.Opts, "string")
			}
			if f.Json == "-" && len(f.Opts) == 0 && r.Intn(2) == 0 {
				f.Opts = []string{"omitempty"}
			}
			r.Shuffle(len(f.Opts), func(i, j int) { f.Opts[i], f.Opts[j] = f.Opts[j], f.Opts[i] })
		}
		if c.names && r.Intn(6) == 0 && f.Json != "-" {
			f.Name = tagNames[r.Intn(len(tagNames))]
		}
		if ns.gos[f.Go] || !ns.free(f) {
			continue
		}
		ns.gos[f.Go] = true
		f.T = randTy(r, c, depth-1)
		if c.scalarStr && !isScalar(f.T) {
			var os []string
			for _, o := range f.Opts {
				if o != "string" {
					os = append(os, o)
				}
			}
			f.Opts = os
		}
		t.F = append(t.F, f)
	}
	if c.deps {
		addDeps(r, t)
	}
	return t
}

// addDeps makes scalar fields deprecated in favour of others of the same struct.
func addDeps(r *rand.Rand, t *ty) {
	var fs []*fld
	for _, f := range t.F {
		if f.Emb == "" && f.Json != "-" {
			fs = append(fs, f)
		}
	}
	if len(fs) < 2 {
		return
	}
	name := func(f *fld) string {
		n := f.marshalName()
		if n[0] == 0 { // give it a tag, so that it can be named
			f.HasJson, f.Json = true, "f"+strings.ToLower(f.Go)
			n = f.Json
		}
		return n
	}
	et := randScalar(r)
	for i := range fs {
		if r.Intn(2) > 0 {
			continue
		}
		j := r.Intn(len(fs))
		fs[i].Dep = name(fs[j])
		if r.Intn(3) > 0 {
			fs[i].T, fs[j].T = et, et
		}
		if r.Intn(12) == 0 {
			fs[i].Dep = "nowhere"
		}
	}
	// fields of embedded structs, named by a tag of the embedding
	for _, e := range t.F {
		if e.Emb == "" || r.Intn(2) == 0 {
			continue
		}
		for _, g := range allFields(e.T) {
			if n := g.marshalName(); plainName(n) && r.Intn(2) == 0 {
				j := r.Intn(len(fs))
				e.EDep = append(e.EDep, [2]string{n, name(fs[j])})
				if r.Intn(3) > 0 {
					g.T, fs[j].T = et, et
				}
			}
		}
	}
}

func plainName(s string) bool {
	for i := 0; i < len(s); i++ {
		if c := s[i]; !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_') {
			return false
		}
	}
	return s != ""
}

func randInt(r *rand.Rand, bits int, signed, big bool) BS {
	max := new64(bits)
	if signed {
		lo, hi := -(int64(1) << (bits - 1)), int64(1)<<(bits-1)-1
		if bits == 64 {
			lo, hi = math.MinInt64, math.MaxInt64
		}
		switch r.Intn(8) {
		case 0:
			return BS(strconv.FormatInt(lo, 10))
		case 1:
			return BS(strconv.FormatInt(hi, 10))
		case 2, 3:
			return BS("0")
		default:
			return BS(strconv.FormatInt(int64(r.Uint64())>>(64-bits)>>uint(r.Intn(bits)), 10))
		}
	}
	if !big && bits == 64 {
		max = math.MaxInt64
	}
	switch r.Intn(6) {
	case 0:
		return BS(strconv.FormatUint(max, 10))
	case 1, 2:
		return BS("0")
	default:
		n := r.Uint64() >> uint(r.Intn(64))
		return BS(strconv.FormatUint(n&max, 10))
	}
}

func new64(bits int) uint64 {
	if bits == 64 {
		return math.MaxUint64
	}
	return uint64(1)<<bits - 1
}

func randTime(r *rand.Rand, micro bool) gv {
	var n int64
	switch r.Intn(6) {
	case 0:
		return gv{"t", -719162, 0, 0}
	case 1:
		return gv{"t", 0, 0, 0}
	case 2:
		n = int64(r.Intn(1e9))
	case 3:
		n = int64(r.Intn(1e6)) * 1000
	default:
		n = int64(r.Intn(1e3)) * 1e6
	}
	if micro {
		n -= n % 1000
	}
	day := int64(r.Intn(40000) - 10000)
	if r.Intn(10) == 0 {
		day = int64(r.Intn(3600000) - 719000)
	}
	return gv{"t", day, r.Intn(86400), n}
}

// randGo makes a random value; six says floats keep to six decimals, micro that times keep to the microsecond.
type valCfg struct{ six, micro, big, small, bad, room bool }

func randGo(r *rand.Rand, t *ty, c *valCfg, depth int) gv {
	n := r.Intn(3)
	if depth <= 0 {
		n = r.Intn(2)
	}
	switch t.K {
	case "bool":
		return gv{"b", r.Intn(2) == 0}
	case "int":
		return gv{"i", randInt(r, t.Bits, t.Signed, c.big)}
	case "float":
		return randFloatG(r, t.Bits, c.six)
	case "string":
		return gv{"s", BS(genString(r, false, 12))}
	case "tri":
		return gv{"s", BS([]string{"", "true", "false"}[r.Intn(3)])}
	case "time":
		return randTime(r, c.micro)
	case "ptr":
		if r.Intn(4) == 0 {
			return gv{"nil"}
		}
		return gv{"p", randGo(r, t.E, c, depth-1)}
	case "slice":
		if r.Intn(5) == 0 {
			return gv{"nil"}
		}
		xs := L{}
		for ; n > 0; n-- {
			xs = append(xs, randGo(r, t.E, c, depth-1))
		}
		if t.E.K == "int" && t.E.Bits == 8 && r.Intn(3) == 0 { // bytes that are a text
			xs = L{}
			for _, b := range []byte(wrapped(r, 12)) {
				if n := int(b); t.E.Signed && n > 127 {
					xs = append(xs, gv{"i", BS(strconv.Itoa(n - 256))})
				} else {
					xs = append(xs, gv{"i", BS(strconv.Itoa(n))})
				}
			}
		}
		if c.room && r.Intn(3) == 0 {
			return gv{"l", xs, len(xs) + 1 + r.Intn(3)}
		}
		return gv{"l", xs}
	case "array":
		xs := L{}
		for i := 0; i < t.N; i++ {
			xs = append(xs, randGo(r, t.E, c, depth-1))
		}
		return gv{"l", xs}
	case "map":
		if r.Intn(5) == 0 {
			return gv{"nil"}
		}
		seen := map[string]bool{}
		for ; n > 0; n-- {
			seen[randMapKey(r, t.Key)] = true
		}
		var ks []string
		for k := range seen {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		ms := L{}
		for _, k := range ks {
			ms = append(ms, L{BS(k), randGo(r, t.E, c, depth-1)})
		}
		return gv{"m", ms}
	case "struct":
		xs := L{}
		for _, f := range t.F {
			if f.Emb == "p" {
				if r.Intn(3) == 0 {
					xs = append(xs, gv{"nil"})
				} else {
					xs = append(xs, gv{"p", randGo(r, f.T, c, depth)})
				}
				continue
			}
			if t.Hook && f.Go == "N" {
				xs = append(xs, gv{"i", BS(strconv.Itoa(r.Intn(3)))})
				continue
			}
			xs = append(xs, randGo(r, f.T, c, depth-1))
		}
		return gv{"st", xs}
	case "fresh":
		return gv{"b", r.Intn(2) == 0}
	case "iface":
		return randIface(r, t, c, depth-1)
	case "cust":
		return gv{"c", BS(randPayload(r, t.D, c.bad))}
	case "any":
		if r.Intn(4) == 0 {
			return gv{"nil"}
		}
		et := []*ty{{K: "bool"}, {K: "string"}, {K: "int", Bits: 64, Signed: true}, {K: "int", Bits: 32, Signed: true}, {K: "float", Bits: 64},
			{K: "slice", E: &ty{K: "string"}}, {K: "map", E: &ty{K: "any"}}, {K: "slice", E: &ty{K: "any"}}, {K: "slice", E: &ty{K: "doc"}}}[r.Intn(9)]
		return gv{"any", et.enc(), randGo(r, et, c, depth-1)}
	case "doc":
		if r.Intn(4) == 0 {
			return gv{"nil"}
		}
		return gv{"j", randDocOf(r, "").enc()}
	case "docp":
		if r.Intn(4) == 0 {
			return gv{"nil"}
		}
		return gv{"j", randDocOf(r, t.D).enc()}
	case "docv":
		return gv{"j", randDocOf(r, t.D).enc()}
	}
	panic("driver: type " + t.K)
}

func randFloatG(r *rand.Rand, bits int, six bool) gv {
	if six {
		d := []float64{1, 10, 100, 1000}[r.Intn(4)]
		if bits == 32 {
			d = []float64{1, 2, 4}[r.Intn(3)]
		}
		f := float64(r.Intn(20000)-10000) / d
		if r.Intn(5) == 0 || f == 0 {
			f = 0
		}
		return encFloat(f, bits)
	}
	f := genFloat(r)
	if bits == 32 {
		switch r.Intn(4) {
		case 0:
			f = float64(r.Intn(20000)-10000) / []float64{10, 100, 1000}[r.Intn(3)]
		case 1:
			f = float64(math.Float32frombits(r.Uint32()))
		case 2:
			f = []float64{math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 16777217, 3.4e38, 1e-40, 8388608.5}[r.Intn(8)]
		}
		f = float64(float32(f))
		if math.IsInf(f, 0) || math.IsNaN(f) {
			f = 0.1
		}
	}
	if f == 0 {
		f = 0
	}
	return encFloat(f, bits)
}

// randDocOf makes a small document of one kind, or of any but null.
func randDocOf(r *rand.Rand, kind string) *V {
	zero := r.Intn(4) == 0
	switch kind {
	case "dict":
		v := &V{T: 'o'}
		for _, k := range []string{"a", "b"} {
			if !zero && r.Intn(2) == 0 {
				v.O = append(v.O, KV{k, leaf(r)})
			}
		}
		return v
	case "array":
		v := &V{T: 'a'}
		for n := r.Intn(3); n > 0 && !zero; n-- {
			v.A = append(v.A, leaf(r))
		}
		return v
	case "string":
		if zero {
			return &V{T: 's'}
		}
		return &V{T: 's', S: genString(r, false, 8)}
	case "int":
		if zero {
			return &V{T: 'i'}
		}
		return &V{T: 'i', I: genInt(r)}
	case "float":
		if zero {
			return &V{T: 'f', Bit: 64}
		}
		return &V{T: 'f', F: float64(r.Intn(2000)-1000) / 8, Bit: 64}
	case "bool":
		return &V{T: 'b', B: !zero && r.Intn(2) == 0}
	}
	return randDocOf(r, []string{"dict", "array", "string", "int", "float", "bool"}[r.Intn(6)])
}

var _ = fmt.Sprint
