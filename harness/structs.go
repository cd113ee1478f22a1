package main

// Go values marshalled and documents unmarshalled (spec/Struct.tla).

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"yunion.io/x/jsonutils"
)

func init() {
	checks["C15"] = c15
	checks["C16"] = c16
	checks["C17"] = c17
	checks["C19"] = c19
	checks["C20"] = c20
}

func marshalOf(v reflect.Value, all bool) JO {
	if all {
		return jsonutils.MarshalAll(v.Interface())
	}
	return jsonutils.Marshal(v.Interface())
}

func jsonRound(x interface{}) interface{} {
	b, err := json.Marshal(x)
	must(err)
	var y interface{}
	must(json.Unmarshal(b, &y))
	return y
}

// marshalRec marshals a value (or a pointer to it) and records the text.
func marshalRec(r *rand.Rand, t *ty, x gv, all bool) M {
	v := decGo(r, t, jsonRound(x))
	rec := M{"k": "marshal", "T": t.enc(), "v": x, "all": all}
	if r.Intn(2) == 0 && t.K != "docv" {
		p := reflect.New(t.typ())
		p.Elem().Set(v)
		v = p
		rec["T"], rec["v"] = L{"ptr", t.enc()}, gv{"p", x}
	}
	rec["text"] = BS(marshalOf(v, all).String())
	return rec
}

// backRec marshals a value and unmarshals the document, and its texts.
func backRec(r *rand.Rand, t *ty, x gv, all bool) M {
	v := decGo(r, t, jsonRound(x))
	d := marshalOf(v, all)
	backs := L{}
	one := func(o JO, err error) {
		if err != nil {
			backs = append(backs, L{"noparse", L{"?"}})
			return
		}
		p := reflect.New(t.typ())
		if err := o.Unmarshal(p.Interface()); err != nil {
			backs = append(backs, L{"err", L{"?"}})
			return
		}
		backs = append(backs, L{"ok", encGo(t, p.Elem())})
	}
	one(d, nil)
	one(jsonutils.ParseString(d.String()))
	one(jsonutils.ParseString(d.PrettyString()))
	return M{"k": "back", "T": t.enc(), "v": x, "all": all, "backs": backs}
}

// unmarshalRec unmarshals a document onto a value.
func unmarshalRec(r *rand.Rand, t *ty, old gv, d *V) M {
	p := reflect.New(t.typ())
	setGo(r, t, p.Elem(), jsonRound(old))
	err := made(r, d).Unmarshal(p.Interface())
	st := "ok"
	if err != nil {
		st = "err"
	}
	credit(p)
	return M{"k": "unmarshal", "T": t.enc(), "old": old, "d": d.enc(), "st": st, "new": encGo(t, p.Elem())}
}

// clearedRec clears part of a value with null, and looks at what had been there.
func clearedRec(r *rand.Rand, e *ty, old gv) M {
	p := reflect.New(e.typ())
	setGo(r, e, p.Elem(), jsonRound(old))
	held := reflect.New(e.typ()).Elem()
	held.Set(p.Elem())
	was := encGo(e, held)
	null := made(r, &V{T: 'n'})
	var target interface{} = p.Interface()
	d := null
	in := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: e.typ(), Tag: `json:"f"`}, {Name: "G", Type: reflect.TypeOf(0), Tag: `json:"g"`}}))
	ms := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), e.typ()))
	l := reflect.New(reflect.SliceOf(e.typ()))
	at := func() reflect.Value { return p.Elem() }
	switch r.Intn(4) {
	case 0:
		in.Elem().Field(0).Set(held)
		target, d = in.Interface(), dictOf("f", null)
		at = func() reflect.Value { return in.Elem().Field(0) }
	case 1:
		ms.SetMapIndex(reflect.ValueOf("f"), held)
		target, d = ms.Interface(), dictOf("f", null)
		at = func() reflect.Value { return ms.MapIndex(reflect.ValueOf("f")) }
	case 2:
		l.Elem().Set(reflect.Append(l.Elem(), held))
		target, d = l.Interface(), jsonutils.NewArray(null)
		at = func() reflect.Value { return l.Elem().Index(0) }
	}
	st := "ok"
	if err := d.Unmarshal(target); err != nil {
		st = "err"
	}
	return M{"k": "cleared", "T": e.enc(), "old": old, "d": L{"n"}, "st": st, "new": encGo(e, at()), "was": was, "is": encGo(e, held)}
}

func clearedCases(c *Ctx, quick, thorough int) {
	for n := c.Scale(quick, thorough); n > 0; n-- {
		c.Case("cleared", func(r *rand.Rand) M {
			cfg := &tyCfg{names: true, any: true, docs: true}
			e := randTy(r, cfg, 2)
			switch r.Intn(4) {
			case 0:
				e = &ty{K: "map", E: e}
			case 1:
				e = &ty{K: "ptr", E: randStruct(r, cfg, 2)}
			case 2:
				e = &ty{K: "slice", E: e}
			}
			if e.K == "docv" || e.K == "array" || e.K == "struct" {
				e = &ty{K: "map", E: &ty{K: "any"}}
			}
			return clearedRec(r, e, randGo(r, e, &valCfg{room: true, six: true, micro: true}, 2))
		})
	}
}

// underRec unmarshals the part of a document under a key path onto a value.
func underRec(r *rand.Rand, t *ty, old gv, d *V, keys []string) M {
	p := reflect.New(t.typ())
	setGo(r, t, p.Elem(), jsonRound(old))
	st := "ok"
	if err := made(r, d).Unmarshal(p.Interface(), keys...); err != nil {
		st = "err"
	}
	return M{"k": "under", "T": t.enc(), "old": old, "d": d.enc(), "keys": encKeys(keys), "st": st, "new": encGo(t, p.Elem())}
}

// updateRec updates a value from another of the same or another type.
func updateRec(r *rand.Rand, s *ty, v gv, t *ty, old gv) M {
	src := reflect.New(s.typ())
	setGo(r, s, src.Elem(), jsonRound(v))
	d := enc(jsonutils.Marshal(src.Elem().Interface()), false, 0)
	from := src.Interface()
	if r.Intn(2) == 0 {
		from = src.Elem().Interface()
	}
	p := reflect.New(t.typ())
	setGo(r, t, p.Elem(), jsonRound(old))
	st := "ok"
	if err := jsonutils.Update(p.Interface(), from); err != nil {
		st = "err"
	}
	return M{"k": "update", "S": s.enc(), "v": v, "d": d, "T": t.enc(), "old": old, "st": st, "new": encGo(t, p.Elem())}
}

// like makes a type much like t: fields left out and of other types.
func like(r *rand.Rand, c *tyCfg, t *ty) *ty {
	if t.K != "struct" {
		return t
	}
	s := &ty{K: "struct"}
	for _, f := range t.F {
		g := *f
		switch {
		case r.Intn(5) == 0:
			continue
		case f.Emb != "":
			g.T = like(r, c, f.T)
		case r.Intn(4) == 0:
			g.T = randTy(r, c, 2)
		case r.Intn(3) == 0:
			g.T = like(r, c, f.T)
		}
		s.F = append(s.F, &g)
	}
	if len(s.F) == 0 {
		return t
	}
	r.Shuffle(len(s.F), func(i, j int) { s.F[i], s.F[j] = s.F[j], s.F[i] })
	return s
}

// specCases replays the cases the specification enumerated (MCStruct).
func structCases(c *Ctx) {
	inLines(c, func(line []byte) {
		var m map[string]interface{}
		must(json.Unmarshal(line, &m))
		t := decTy(m["T"])
		switch m["k"].(string) {
		case "marshal":
			for _, all := range []bool{false, true} {
				all := all
				c.Case("spec-marshal", func(r *rand.Rand) M { return marshalRec(r, t, gvOf(m["v"]), all) })
			}
		case "try":
			for _, all := range []bool{false, true} {
				all := all
				c.Case("spec-try", func(r *rand.Rand) M { return marshalTry(r, t, gvOf(m["v"]), all) })
			}
		case "back":
			for _, all := range []bool{false, true} {
				all := all
				c.Case("spec-back", func(r *rand.Rand) M { return backRec(r, t, gvOf(m["v"]), all) })
			}
		case "deser":
			c.Case("spec-rebuild", func(r *rand.Rand) M { return deserRec(t, decBytes(m["text"])) })
		case "unmarshal":
			c.Case("spec-unmarshal", func(r *rand.Rand) M { return unmarshalRec(r, t, gvOf(m["old"]), decV(m["d"])) })
		}
	})
}

func gvOf(x interface{}) gv { return gv(x.([]interface{})) }

func rootTy(r *rand.Rand, c *tyCfg, depth int) *ty {
	if r.Intn(4) > 0 {
		return randStruct(r, c, depth)
	}
	return randTy(r, c, depth)
}

func c15(c *Ctx) {
	structCases(c)
	for _, how := range []string{"v", "p"} {
		how := how
		c.Case("embedded-in-embedded-pointer", func(r *rand.Rand) M { return backRec(r, probeEmbedded(how), probeValue(how), false) })
	}
	for n := c.Scale(2500, 40000); n > 0; n-- {
		c.Case("back", func(r *rand.Rand) M {
			all := r.Intn(2) == 0
			t := rootTy(r, &tyCfg{strTag: true, scalarStr: true, fullArr: !all, big: true}, 1+r.Intn(4))
			return backRec(r, t, randGo(r, t, &valCfg{six: r.Intn(3) > 0 || strTagged(t), micro: true, big: true}, 3), all)
		})
	}
	// strings and bytes that are themselves a document's text
	for n := c.Scale(250, 3000); n > 0; n-- {
		c.Case("text-inside", func(r *rand.Rand) M {
			text := build(r, genDoc(r, false, 4, 6)).String()
			if r.Intn(3) == 0 {
				text = wrapped(r, 40)
			}
			e, x := &ty{K: "string"}, gv{"s", BS(text)}
			if r.Intn(2) == 0 {
				e, x = &ty{K: "slice", E: &ty{K: "int", Bits: 8}}, gv{"l", byteVals(text)}
			}
			switch r.Intn(4) {
			case 0:
				e, x = &ty{K: "slice", E: e}, gv{"l", L{x, x}}
			case 1:
				e, x = &ty{K: "map", E: e}, gv{"m", L{L{BS("a"), x}}}
			case 2:
				e, x = &ty{K: "struct", F: []*fld{{Go: "A", T: e}}}, gv{"st", L{x}}
			}
			return backRec(r, e, x, r.Intn(2) == 0)
		})
	}
}

// strTagged says whether a type has a float with the declared string form, which keeps six decimals.
func strTagged(t *ty) bool {
	if t.E != nil && strTagged(t.E) {
		return true
	}
	for _, f := range t.F {
		for _, o := range f.Opts {
			if o == "string" {
				return true
			}
		}
		if strTagged(f.T) {
			return true
		}
	}
	return false
}

// probeEmbedded is a struct embedded in an embedded pointer to a struct (known-findings.txt).
func probeEmbedded(how string) *ty {
	b := &ty{K: "struct", F: []*fld{{Go: "X", T: &ty{K: "int", Bits: 64, Signed: true}}}}
	a := &ty{K: "struct", F: []*fld{{Go: "B", Emb: how, T: b}}}
	return &ty{K: "struct", F: []*fld{{Go: "A", Emb: "p", T: a}}}
}

func probeValue(how string) gv {
	b := gv{"st", L{gv{"i", BS("7")}}}
	if how == "p" {
		b = gv{"p", b}
	}
	return gv{"st", L{gv{"p", gv{"st", L{b}}}}}
}

// decimals makes numbers that are hardly or not at all told by six decimals.
func decimals(r *rand.Rand) float64 {
	f := float64(r.Intn(20000)-10000) / 128
	switch r.Intn(5) {
	case 0:
		f = genFloat(r)
	case 1:
		f = float64(r.Int63n(1e12)) / 1e12
	case 2:
		f = float64(r.Intn(1e7)) + float64(r.Intn(20))/2e6
	case 3:
		f = float64(1+r.Intn(2000)) * 1e-9
	}
	if r.Intn(3) == 0 {
		f = -f
	}
	return f
}

func c16(c *Ctx) {
	structCases(c)
	for n := c.Scale(3000, 40000); n > 0; n-- {
		c.Case("marshal", func(r *rand.Rand) M {
			t := rootTy(r, &tyCfg{any: true, docs: true, names: true, strTag: true, anyKey: true}, 1+r.Intn(4))
			return marshalRec(r, t, randGo(r, t, &valCfg{six: r.Intn(3) > 0 || strTagged(t)}, 3), r.Intn(2) == 0)
		})
	}
	// numbers of more than six decimals in their declared string form
	for n := c.Scale(300, 4000); n > 0; n-- {
		c.Case("decimals", func(r *rand.Rand) M {
			t := &ty{K: "struct", F: []*fld{{Go: "A", HasJson: true, Json: "a", Opts: []string{"string"}, T: &ty{K: "float", Bits: 32 << r.Intn(2)}}}}
			f := decimals(r)
			if t.F[0].T.Bits == 32 {
				if f = float64(float32(f)); math.IsInf(f, 0) {
					f = 1.5e-7
				}
			}
			return marshalRec(r, t, gv{"st", L{encFloat(f, t.F[0].T.Bits)}}, r.Intn(2) == 0)
		})
	}
	// the largest and smallest integers, with and without the declared string form
	for n := c.Scale(200, 2000); n > 0; n-- {
		c.Case("integers", func(r *rand.Rand) M {
			f := &fld{Go: "A", HasJson: true, T: &ty{K: "int", Bits: 8 << r.Intn(4), Signed: r.Intn(2) == 0}}
			if r.Intn(2) == 0 || !f.T.Signed && f.T.Bits == 64 {
				f.Opts = []string{"string"}
			}
			t := &ty{K: "struct", F: []*fld{f}}
			return marshalRec(r, t, gv{"st", L{gv{"i", randInt(r, f.T.Bits, f.T.Signed, true)}}}, r.Intn(2) == 0)
		})
	}
}

func c17(c *Ctx) {
	structCases(c)
	for n := c.Scale(2500, 40000); n > 0; n-- {
		c.Case("deprecated", func(r *rand.Rand) M {
			t := randStruct(r, &tyCfg{deps: true}, 1+r.Intn(3))
			if r.Intn(2) == 0 {
				return marshalRec(r, t, randGo(r, t, &valCfg{six: true}, 2), r.Intn(2) == 0)
			}
			return unmarshalRec(r, t, randGo(r, t, &valCfg{six: true, micro: true}, 2), randObjFor(r, t, 20))
		})
	}
}

func c19(c *Ctx) {
	structCases(c)
	texts := append(append(append([]string{}, numTexts...), boolTexts...), timeTexts...)
	texts = append(texts, "1,234", "1,234,567.5", "1.234,5", "1.234.567", "12.345", "1,23", "1,2345", "1234,567", ",5", "1,", "-1,000", "+2,000", "-1.000,25", "1,000.", "1.000", "1,000,00", "0,001", "1,000,000,000,000,000,000", "127", "128", "-128", "-129", "255", "256", "65535", "65536", "-32769", "4294967296", "1e38", "4e38", "-4e38", "18446744073709551615", "18446744073709551616", "3.4028235e38", "3.4028236e38", "[1]", "{}", "[]", "{\"a\":1}")
	targets := scalarTargets()
	for _, t := range targets {
		for _, s := range texts {
			t, s := t, s
			c.Case("text", func(r *rand.Rand) M {
				return unmarshalRec(r, t, randGo(r, t, &valCfg{room: true, six: true}, 1), &V{T: 's', S: s})
			})
		}
		for _, n := range someInts {
			t, n := t, n
			c.Case("integer", func(r *rand.Rand) M {
				return unmarshalRec(r, t, randGo(r, t, &valCfg{room: true, six: true}, 1), &V{T: 'i', I: n})
			})
		}
		for _, f := range append([]float64{3.5e38, -3.5e38, 3.4028234663852886e38, 255.5, 256, -0.5, 127.9, -128.9, 1.8446744073709552e19, -9223372036854777856}, someFloats...) {
			t, f := t, f
			c.Case("float", func(r *rand.Rand) M {
				return unmarshalRec(r, t, randGo(r, t, &valCfg{room: true, six: true}, 1), &V{T: 'f', F: f, Bit: 64})
			})
		}
	}
	// words hardly other than those that stand for something
	near := nearWords(c)
	for i, w := range near {
		for k, t := range []*ty{{K: "tri"}, {K: "bool"}, {K: "docv", D: "bool"}, {K: "docp", D: "bool"}, {K: "ptr", E: &ty{K: "bool"}}, {K: "ptr", E: &ty{K: "tri"}}, {K: "float", Bits: 64}, {K: "int", Bits: 64, Signed: true}} {
			if w, t := w, t; c.Scale(0, 1) > 0 || k < 2 && i%2 == k || i%9 == k {
				c.Case("word", func(r *rand.Rand) M {
					return unmarshalRec(r, t, randGo(r, t, &valCfg{room: true, six: true}, 1), &V{T: 's', S: w})
				})
			}
		}
	}
	clearedCases(c, 300, 4000)
	for n := c.Scale(500, 8000); n > 0; n-- {
		c.Case("decimals", func(r *rand.Rand) M {
			t := targets[r.Intn(len(targets))]
			if r.Intn(3) == 0 {
				t = &ty{K: "string"}
			}
			f := decimals(r)
			d := &V{T: 'f', F: f, Bit: 64}
			if r.Intn(3) == 0 {
				d = &V{T: 's', S: strconv.FormatFloat(f, "gGeEf"[r.Intn(5)], []int{-1, 15, 16, 17, 20, 30}[r.Intn(6)], 64)}
			}
			return unmarshalRec(r, t, randGo(r, t, &valCfg{room: true, six: true}, 1), d)
		})
	}
	for n := c.Scale(600, 10000); n > 0; n-- {
		c.Case("grouped", func(r *rand.Rand) M {
			t := targets[r.Intn(len(targets))]
			if r.Intn(4) > 0 {
				t = &ty{K: "int", Bits: []int{8, 16, 32, 64}[r.Intn(4)], Signed: r.Intn(2) == 0}
				if r.Intn(3) > 0 {
					t = &ty{K: "float", Bits: 32 << r.Intn(2)}
				}
			}
			return unmarshalRec(r, t, randGo(r, t, &valCfg{room: true, six: true}, 1), &V{T: 's', S: genGrouped(r)})
		})
	}
	for n := c.Scale(600, 10000); n > 0; n-- {
		c.Case("references", referencesRec)
	}
	for n := c.Scale(2500, 40000); n > 0; n-- {
		c.Case("convert", func(r *rand.Rand) M {
			t := randTy(r, &tyCfg{any: true, docs: true, names: true, anyKey: true}, 1+r.Intn(3))
			if r.Intn(4) == 0 {
				t = targets[r.Intn(len(targets))]
			}
			old := randGo(r, t, &valCfg{room: true, six: true}, 2)
			if r.Intn(3) == 0 && t.K != "array" && t.K != "struct" && t.K != "docv" {
				old = encGo(t, reflect.New(t.typ()).Elem())
			}
			return unmarshalRec(r, t, old, randFor(r, t, 3, 12))
		})
	}
}

var refPart = regexp.MustCompile(`<\d+>|"___jnid_":\d+|null|[:,\[](\d+|true|"[a-z ]*")`)

// referencesRec unmarshals a text whose references may name anything, into anything.
func referencesRec(r *rand.Rand) M {
	fam := gfams[r.Intn(len(gfams))]
	var text string
	var t reflect.Type
	if r.Intn(2) == 0 {
		g := randGraph(r, fam, true)
		text = jsonutils.MarshalAll(gBuild(fam, g)[0].Interface()).String()
		if r.Intn(3) == 0 {
			fam = gfams[r.Intn(len(gfams))]
		}
		t = fam["n"]
	} else {
		x := randTy(r, &tyCfg{any: true, docs: true, names: true, anyKey: true}, 2+r.Intn(3))
		t = x.typ()
		text = made(r, randFor(r, x, 4, 20)).String()
		text = strings.ReplaceAll(text, "{\"", fmt.Sprintf("{\"___jnid_\":%d,\"", r.Intn(4)))
	}
	text = refPart.ReplaceAllStringFunc(text, func(s string) string {
		if r.Intn(4) > 0 {
			return s
		}
		if s[0] == '"' {
			return fmt.Sprintf("\"___jnid_\":%d", r.Intn(6))
		}
		ref := fmt.Sprintf("<%d>", r.Intn(6))
		if s[0] == ':' || s[0] == ',' || s[0] == '[' {
			return s[:1] + ref
		}
		return ref
	})
	o, err := jsonutils.ParseString(text)
	if err != nil {
		return nil
	}
	st := L{}
	for i := 0; i < 2; i++ {
		p := reflect.New(t)
		if err := o.Unmarshal(p.Interface()); err != nil {
			st = append(st, "err")
		} else {
			st = append(st, "ok")
		}
	}
	exercise(o)
	return M{"k": "refs", "text": BS(text), "st": st}
}

// genGrouped writes a number the way it is written with thousands separators,
// or nearly that way.
func genGrouped(r *rand.Rand) string {
	sep, dec := ",", "."
	if r.Intn(2) == 0 {
		sep, dec = dec, sep
	}
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = '0' + byte(r.Intn(10))
		}
		return string(b)
	}
	s := []string{"", "", "", "-", "+"}[r.Intn(5)] + digits(1+r.Intn(3))
	for n := r.Intn(6); n > 0; n-- {
		s += sep + digits(3)
	}
	if r.Intn(2) == 0 {
		s += dec + digits(r.Intn(5))
	}
	switch r.Intn(10) {
	case 0:
		i := r.Intn(len(s))
		s = s[:i] + s[i+1:]
	case 1:
		i := r.Intn(len(s) + 1)
		s = s[:i] + []string{",", ".", "0", "-", " ", "e2", "x"}[r.Intn(7)] + s[i:]
	}
	return s
}

func scalarTargets() []*ty {
	ts := []*ty{{K: "bool"}, {K: "string"}, {K: "tri"}, {K: "time"}, {K: "any"}, {K: "doc"}, {K: "float", Bits: 32}, {K: "float", Bits: 64}}
	for _, b := range []int{8, 16, 32, 64} {
		ts = append(ts, &ty{K: "int", Bits: b, Signed: true}, &ty{K: "int", Bits: b})
	}
	for _, t := range append([]*ty{}, ts...) {
		if t.Alt = 1; t.alt() != nil {
			u := *t
			ts = append(ts, &u)
		}
		t.Alt = 0
	}
	ts = append(ts, &ty{K: "int", Bits: 64, Signed: true, Alt: 4}, &ty{K: "int", Bits: 64, Alt: 4})
	for _, d := range []string{"dict", "array", "string", "int", "float", "bool"} {
		ts = append(ts, &ty{K: "docp", D: d}, &ty{K: "docv", D: d})
	}
	i := &ty{K: "int", Bits: 64, Signed: true}
	return append(ts, &ty{K: "ptr", E: i}, &ty{K: "ptr", E: &ty{K: "time"}}, &ty{K: "slice", E: i}, &ty{K: "slice", E: &ty{K: "string"}}, &ty{K: "array", N: 1, E: i},
		&ty{K: "map", E: i}, &ty{K: "ptr", E: &ty{K: "ptr", E: i}}, &ty{K: "slice", E: &ty{K: "slice", E: i}}, &ty{K: "struct", F: []*fld{{Go: "A", T: i}}})
}

func c20(c *Ctx) {
	structCases(c)
	c20Parts(c)
	clearedCases(c, 400, 6000)
	for n := c.Scale(3000, 40000); n > 0; n-- {
		c.Case("overlay", func(r *rand.Rand) M {
			cfg := &tyCfg{names: true, any: r.Intn(3) == 0, docs: r.Intn(3) == 0, anyKey: r.Intn(3) == 0}
			t := randStruct(r, cfg, 1+r.Intn(4))
			if r.Intn(6) == 0 {
				t = &ty{K: "map", E: randTy(r, cfg, 2)}
			}
			return unmarshalRec(r, t, randGo(r, t, &valCfg{room: true, six: true, micro: true}, 3), randObjFor(r, t, 8))
		})
	}
	for n := c.Scale(300, 6000); n > 0; n-- {
		c.Case("wide", func(r *rand.Rand) M {
			t := wideStruct(r, 4+r.Intn(12))
			if r.Intn(5) == 0 {
				t = &ty{K: "struct", F: []*fld{{Go: "Zip", T: t}, {Go: "Zap", T: &ty{K: "int", Bits: 64, Signed: true}}}}
			}
			return unmarshalRec(r, t, randGo(r, t, &valCfg{room: true, six: true, micro: true}, 2), randObjFor(r, t, 1+r.Intn(4)))
		})
	}
}

func c20Parts(c *Ctx) {
	names := []string{"a", "A", "b", "", "a.b", "\xc3\xa9", "0"}
	for n := c.Scale(500, 8000); n > 0; n-- {
		c.Case("under", func(r *rand.Rand) M {
			t := randStruct(r, &tyCfg{names: true}, 1+r.Intn(3))
			if r.Intn(4) == 0 {
				t = randTy(r, &tyCfg{any: true, docs: true}, 2)
			}
			d := randObjFor(r, t, 8)
			var keys []string
			for i := r.Intn(4); i > 0; i-- {
				k := names[r.Intn(len(names))]
				keys = append([]string{k}, keys...)
				o := &V{T: 'o'}
				for _, j := range r.Perm(len(names)) {
					switch x := names[j]; {
					case x == k:
						o.O = append(o.O, KV{k, d})
					case r.Intn(3) == 0:
						o.O = append(o.O, KV{x, genValue(r, &genCfg{nodes: 3, maxStr: 6}, 2)})
					}
				}
				d = o
			}
			switch r.Intn(6) {
			case 0:
				keys = append(keys, names[r.Intn(len(names))])
			case 1:
				if len(keys) > 0 {
					keys[r.Intn(len(keys))] = names[r.Intn(len(names))]
				}
			case 2:
				if len(keys) > 0 {
					keys = keys[:len(keys)-1]
				}
			}
			return underRec(r, t, randGo(r, t, &valCfg{room: true, six: true, micro: true}, 3), d, keys)
		})
	}
	for n := c.Scale(600, 10000); n > 0; n-- {
		c.Case("update", func(r *rand.Rand) M {
			cfg := &tyCfg{names: true}
			t := randStruct(r, cfg, 1+r.Intn(3))
			if r.Intn(8) == 0 {
				t = &ty{K: "map", E: randTy(r, cfg, 2)}
			}
			s := t
			if r.Intn(2) == 0 {
				s = like(r, cfg, t)
			} else if r.Intn(4) == 0 {
				s = randStruct(r, cfg, 2)
			}
			vc := &valCfg{room: true, six: true, micro: true}
			return updateRec(r, s, randGo(r, s, &valCfg{six: true, micro: true}, 3), t, randGo(r, t, vc, 3))
		})
	}
}

// wideStruct has n members of plain kinds, some of which the documents made
// for it do not fit.
func wideStruct(r *rand.Rand, n int) *ty {
	t := &ty{K: "struct"}
	for i := 0; i < n; i++ {
		t.F = append(t.F, &fld{Go: "W" + string(rune('a'+i)), T: randTy(r, &tyCfg{}, 1+r.Intn(8)/7)})
	}
	return t
}

// ---------------------------------------------------------------------
// Documents for a target; one part in odd is of some other kind.

func randFor(r *rand.Rand, t *ty, depth, odd int) *V {
	if r.Intn(odd) == 0 {
		if r.Intn(3) == 0 {
			return &V{T: 'n'}
		}
		return genValue(r, &genCfg{nodes: 4, maxStr: 8}, 2)
	}
	switch t.K {
	case "bool":
		if r.Intn(3) == 0 {
			return &V{T: 's', S: boolTexts[r.Intn(len(boolTexts))]}
		}
		return &V{T: 'b', B: r.Intn(2) == 0}
	case "int":
		if r.Intn(4) == 0 {
			return &V{T: 's', S: numTexts[r.Intn(len(numTexts))]}
		}
		if r.Intn(4) == 0 {
			return &V{T: 'i', I: genInt(r)}
		}
		return &V{T: 'i', I: int64(r.Intn(100))}
	case "float":
		if r.Intn(4) == 0 {
			return &V{T: 's', S: numTexts[r.Intn(len(numTexts))]}
		}
		return &V{T: 'f', F: float64(r.Intn(20000)-10000) / 8, Bit: 64}
	case "string":
		return &V{T: 's', S: genString(r, false, 12)}
	case "tri":
		return &V{T: 's', S: boolTexts[r.Intn(len(boolTexts))]}
	case "time":
		return &V{T: 's', S: timeTexts[r.Intn(len(timeTexts))]}
	case "cust":
		return randCustomDoc(r, t)
	case "fresh":
		return &V{T: 's', S: "x"}
	case "iface":
		return randForIface(r, t, depth-1, odd)
	case "any", "doc":
		return randDocOf(r, "")
	case "docp", "docv":
		return randDocOf(r, t.D)
	case "ptr":
		return randFor(r, t.E, depth, odd)
	case "slice", "array":
		v := &V{T: 'a'}
		n := t.N
		if t.K == "slice" {
			n = r.Intn(4)
		} else if r.Intn(4) == 0 {
			n = r.Intn(4)
		}
		for ; n > 0; n-- {
			v.A = append(v.A, randFor(r, t.E, depth-1, odd))
		}
		return v
	case "map":
		v := &V{T: 'o'}
		for _, k := range []string{"a", "b", "A", "", "k 1"} {
			if r.Intn(2) == 0 {
				v.O = append(v.O, KV{k, randFor(r, t.E, depth-1, odd)})
			}
		}
		return v
	}
	return randObjFor(r, t, odd)
}

func allFields(t *ty) []*fld {
	var out []*fld
	for _, f := range t.F {
		if f.Emb != "" {
			out = append(out, allFields(f.T)...)
		} else {
			out = append(out, f)
		}
	}
	return out
}

// snakeName is used to hit fields; what it hits is for the specification to say.
func snakeName(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] >= 'A' && s[i] <= 'Z' {
			if i > 0 && s[i-1] >= 'a' && s[i-1] <= 'z' {
				sb.WriteByte('_')
			}
			sb.WriteByte(s[i] | 0x20)
		} else {
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}

func randObjFor(r *rand.Rand, t *ty, odd int) *V {
	if t.K != "struct" {
		return randFor(r, t, 3, odd)
	}
	v := &V{T: 'o'}
	seen := map[string]bool{}
	for _, f := range allFields(t) {
		for n := 1 + r.Intn(6)/5; n > 0; n-- {
			if r.Intn(3) == 0 {
				continue
			}
			names := []string{snakeName(f.Go)}
			if f.Json != "" && f.Json != "-" {
				names = []string{f.Json}
			}
			if f.Name != "" {
				names = []string{f.Name, f.Name, f.Json}
			}
			switch r.Intn(6) {
			case 0:
				names = []string{f.Go, strings.ToLower(f.Go), strings.ToUpper(f.Go), snakeName(f.Go), strings.ToLower(f.Go[:1]) + f.Go[1:], snakeName(f.Go) + "_", strings.ReplaceAll(snakeName(f.Go), "_", "-"), f.Go[:1] + strings.ToLower(f.Go[1:])}
			case 1:
				if f.Json == "-" || r.Intn(4) == 0 {
					names = []string{"-", "nowhere", "", f.Json}
				}
			}
			k := names[r.Intn(len(names))]
			if seen[k] || k == "___jnid_" {
				continue
			}
			seen[k] = true
			v.O = append(v.O, KV{k, randFor(r, f.T, 3, odd)})
		}
	}
	return v
}

func dictOf(k string, v JO) JO {
	d := jsonutils.NewDict()
	d.Set(k, v)
	return d
}

func byteVals(s string) L {
	xs := L{}
	for _, b := range []byte(s) {
		xs = append(xs, gv{"i", BS(strconv.Itoa(int(b)))})
	}
	return xs
}
