package main

// Types registered to be rebuilt from a text (C27).

import (
	"math/rand"
	"reflect"

	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/gotypes"
)

func init() { checks["C27"] = c27 }

type regA interface {
	gotypes.ISerializable
	IsA()
}
type regB interface {
	gotypes.ISerializable
	IsB()
}
type regC interface {
	gotypes.ISerializable
	IsC()
}
type regN interface {
	gotypes.ISerializable
	IsN()
}
type regW interface {
	gotypes.ISerializable
	IsW()
}
type regX interface {
	gotypes.ISerializable
	IsX()
}
type regV interface {
	gotypes.ISerializable
	IsV()
}
type regT interface {
	gotypes.ISerializable
	IsT()
}
type regL interface {
	gotypes.ISerializable
	IsL()
}
type regS interface {
	gotypes.ISerializable
	IsS()
}

type serial struct{}

func (serial) String() string { return "serial" }
func (serial) IsZero() bool   { return false }

func isZero(x interface{}) bool {
	v := reflect.ValueOf(x)
	return v.IsNil() || v.Elem().IsZero()
}

type recA struct {
	N    int64
	L    []string `json:"l"`
	P    *int64
	In   regB                  `json:"in"`
	No   regN                  `json:"no"`
	Ls   []regC                `json:"ls"`
	D    jsonutils.JSONObject  `json:"d"`
	G    gotypes.ISerializable `json:"g"`
	Mark string                `json:"-"`
}

func (*recA) String() string { return "a" }
func (x *recA) IsZero() bool { return isZero(x) }
func (*recA) IsA()           {}

type recC struct {
	S string `json:"s"`
	V regV   `json:"v"`
	T int64
}

func (*recC) String() string { return "c" }
func (x *recC) IsZero() bool { return isZero(x) }
func (*recC) IsC()           {}

type mapB map[string]regC

func (mapB) String() string { return "b" }
func (x mapB) IsZero() bool { return len(x) == 0 }
func (mapB) IsB()           {}

type valV struct {
	X int64
	Y []int64
}

func (valV) String() string { return "v" }
func (x valV) IsZero() bool { return x.X == 0 && x.Y == nil }
func (valV) IsV()           {}

type recT struct {
	T string `json:"t"`
	U bool   `json:"u"`
}

func (*recT) String() string { return "t" }
func (x *recT) IsZero() bool { return isZero(x) }
func (*recT) IsT()           {}

type lstL []int64

func (lstL) String() string { return "l" }
func (x lstL) IsZero() bool { return len(x) == 0 }
func (lstL) IsL()           {}

type strS string

func (strS) String() string { return "s" }
func (x strS) IsZero() bool { return len(x) == 0 }
func (strS) IsS()           {}

type recQ struct {
	A int64
	C regC `json:"c"`
}

func (*recQ) String() string { return "q" }
func (x *recQ) IsZero() bool { return isZero(x) }

// registered is what a type was registered with.
type registered struct {
	rt    reflect.Type
	how   string // none doc odd new
	c     *ty
	v0    gv
	marks []string
}

var (
	registry    = map[string]*registered{}
	registryOf  = map[reflect.Type]string{}
	ifaceTys    []*ty // may stand inside other types
	zeroIfaces  []*ty // ... and start out with nothing in them, and are written as objects
	directTypes []*ty
)

func (t *ty) encIface() L {
	g := registry[t.Name]
	if g.how != "new" {
		return L{"iface", t.Name, L{g.how}}
	}
	ms := L{}
	for _, m := range g.marks {
		ms = append(ms, BS(m))
	}
	return L{"iface", t.Name, L{"new", g.c.enc(), g.v0, ms}}
}

func init() {
	reg := func(name string, p interface{}, how string, alloc func() gotypes.ISerializable, marks ...string) *ty {
		rt := reflect.TypeOf(p).Elem()
		g := &registered{rt: rt, how: how, marks: marks}
		if how != "none" {
			gotypes.RegisterSerializable(rt, alloc)
		}
		if how == "new" {
			v := reflect.ValueOf(alloc())
			g.c = describe(v.Type())
			if v.Kind() == reflect.Ptr {
				g.c.E.rt = v.Type().Elem()
			} else {
				g.c.rt = v.Type()
			}
			g.v0 = encGo(g.c, v)
		}
		for _, m := range marks {
			m := m
			gotypes.RegisterSerializableTransformer(rt, func(x gotypes.ISerializable) gotypes.ISerializable {
				a := *x.(*recA)
				a.Mark += m
				return &a
			})
		}
		registry[name] = g
		registryOf[rt] = name
		t := &ty{K: "iface", Name: name, rt: rt}
		directTypes = append(directTypes, t)
		return t
	}
	v := reg("V", (*regV)(nil), "new", func() gotypes.ISerializable { return valV{} })
	c := reg("C", (*regC)(nil), "new", func() gotypes.ISerializable { return &recC{} })
	b := reg("B", (*regB)(nil), "new", func() gotypes.ISerializable { return mapB{} })
	n := reg("N", (*regN)(nil), "none", nil)
	d := reg("D", (*gotypes.ISerializable)(nil), "doc", func() gotypes.ISerializable { return nil })
	a := reg("A", (*regA)(nil), "new", func() gotypes.ISerializable { return &recA{N: 7, L: []string{"d"}, Mark: "m"} }, "1", "2")
	w := reg("W", (*regW)(nil), "odd", func() gotypes.ISerializable { return &recC{} })
	x := reg("X", (*regX)(nil), "odd", func() gotypes.ISerializable { return nil })
	t := reg("T", (*regT)(nil), "new", func() gotypes.ISerializable { return (*recT)(nil) })
	l := reg("L", (*regL)(nil), "new", func() gotypes.ISerializable { return lstL(nil) })
	s := reg("S", (*regS)(nil), "new", func() gotypes.ISerializable { y := strS(""); return &y })
	reg("Q", (**recQ)(nil), "new", func() gotypes.ISerializable { return &recQ{A: 3} })
	ifaceTys = []*ty{a, a, a, b, b, c, c, n, d, w, x, v, t, l, s}
	zeroIfaces = []*ty{b, c, v, t}
	for _, k := range []string{"dict", "array", "string", "int", "float", "bool"} {
		directTypes = append(directTypes, &ty{K: "docp", D: k})
	}
	directTypes = append(directTypes, &ty{K: "doc"})
}

// decIface finds the registered type that the specification describes.
func decIface(x interface{}) *ty {
	t := &ty{K: "iface", Name: x.([]interface{})[1].(string)}
	g := registry[t.Name]
	if g == nil || keyOf(t.enc()) != keyOf(x) {
		panic("driver: no such registered type " + t.Name)
	}
	t.rt = g.rt
	return t
}

func encIfaceVal(t *ty, v reflect.Value) gv {
	if !v.IsValid() || v.IsNil() {
		return gv{"nil"}
	}
	e := v.Elem()
	g := registry[t.Name]
	if g.how == "new" && e.Type() == g.c.typ() {
		return gv{"any", g.c.enc(), encGo(g.c, e)}
	}
	if o, ok := e.Interface().(JO); ok && g.how == "doc" {
		return gv{"any", L{"doc"}, gv{"j", EncNoId(o)}}
	}
	return gv{"other", e.Type().String()}
}

func setIface(r *rand.Rand, t *ty, v reflect.Value, a []interface{}) {
	g := registry[t.Name]
	if g.how == "doc" {
		v.Set(reflect.ValueOf(build(r, decV(a[2].([]interface{})[1]))))
		return
	}
	v.Set(decGo(r, g.c, a[2]))
}

func randIface(r *rand.Rand, t *ty, c *valCfg, depth int) gv {
	g := registry[t.Name]
	switch {
	case depth <= -2 || r.Intn(4) == 0 || g.how == "none" || g.how == "odd":
		return gv{"nil"}
	case g.how == "doc":
		return gv{"any", L{"doc"}, gv{"j", randDocOf(r, "dict").enc()}}
	}
	x := randGo(r, g.c, c, depth)
	for x[0] == "nil" {
		x = randGo(r, g.c, c, depth)
	}
	return gv{"any", g.c.enc(), x}
}

func randForIface(r *rand.Rand, t *ty, depth, odd int) *V {
	g := registry[t.Name]
	if g.c == nil {
		return randDocOf(r, []string{"dict", "dict", ""}[r.Intn(3)])
	}
	e := g.c
	if e.K == "ptr" {
		e = e.E
	}
	if depth <= 0 {
		return &V{T: 'o'}
	}
	return randFor(r, e, depth, odd)
}

// deserRec rebuilds a value from a text.
func deserRec(t *ty, text string) M {
	x, err := jsonutils.JSONDeserialize(t.typ(), text)
	rec := M{"k": "deser", "T": t.enc(), "text": BS(text), "st": "ok", "new": gv{"nil"}}
	if err != nil {
		rec["st"] = "err"
		return rec
	}
	switch v := reflect.ValueOf(&x).Elem(); {
	case x == nil:
	case t.K == "iface":
		rec["new"] = encIfaceVal(t, v)
	default:
		o, ok := x.(JO)
		if !ok || t.K == "docp" && v.Elem().Type() != t.typ() {
			rec["new"] = gv{"other", v.Elem().Type().String()}
		} else {
			rec["new"] = gv{"j", EncNoId(o)}
		}
	}
	return rec
}

func randDirectText(r *rand.Rand, t *ty) string {
	odd := []int{3, 12, 1000}[r.Intn(3)]
	d := build(r, randFor(r, t, 3, odd))
	text := d.String()
	if r.Intn(3) == 0 {
		text = d.PrettyString()
	}
	switch r.Intn(12) {
	case 0:
		text = text[:r.Intn(len(text)+1)]
	case 1:
		if len(text) > 0 {
			i := r.Intn(len(text))
			text = text[:i] + text[i+1:]
		}
	case 2:
		text = []string{"", " ", "null", "{}", "[]", "nope", "{\"a\":1}x", "\n null", "0", "{{", "\""}[r.Intn(11)]
	case 3:
		text = " " + text + "\n"
	}
	return text
}

func c27(c *Ctx) {
	structCases(c)
	for n := c.Scale(2500, 40000); n > 0; n-- {
		c.Case("rebuild", func(r *rand.Rand) M {
			t := directTypes[r.Intn(len(directTypes))]
			if r.Intn(2) == 0 {
				t = directTypes[[]int{1, 2, 5, 11}[r.Intn(4)]]
			}
			return deserRec(t, randDirectText(r, t))
		})
	}
	for n := c.Scale(2000, 30000); n > 0; n-- {
		c.Case("inside", func(r *rand.Rand) M {
			cfg := &tyCfg{ifaces: ifaceTys}
			t := randTy(r, cfg, 1+r.Intn(3))
			for tries := 0; tries < 5 && !hasIface(t); tries++ {
				t = rootTy(r, cfg, 1+r.Intn(3))
			}
			return unmarshalRec(r, t, randGo(r, t, &valCfg{six: true, micro: true}, 2), randFor(r, t, 3, 15))
		})
	}
	for n := c.Scale(1000, 20000); n > 0; n-- {
		c.Case("back", func(r *rand.Rand) M {
			all := r.Intn(2) == 0
			cfg := &tyCfg{ifaces: zeroIfaces, fullArr: true}
			t := rootTy(r, cfg, 1+r.Intn(3))
			for tries := 0; tries < 5 && !hasIface(t); tries++ {
				t = rootTy(r, cfg, 1+r.Intn(3))
			}
			return backRec(r, t, randGo(r, t, &valCfg{six: true, micro: true}, 2), all)
		})
	}
}

func hasIface(t *ty) bool {
	if t.K == "iface" || t.E != nil && hasIface(t.E) {
		return true
	}
	for _, f := range t.F {
		if hasIface(f.T) {
			return true
		}
	}
	return false
}
