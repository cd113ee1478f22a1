package main

// Generators of specification values, and of real documents built from them.

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"yunion.io/x/jsonutils"
)

var someStrings = []string{"", "a", "b", "A", "name", "Name", "NAME", "id", "x y", "null", "none", "true", "yes", "false", "no", "0", "1", "-1", "01",
	"1.5", "1e5", "12345678901234567890", "{", "}", "[", "]", ":", ",", "\"", "'", "\\", "/", "<1>", "<", ">", "___jnid", "___jnid_x", "\n", "\r\n", "\t", "\b\f",
	"\x00", "\x1f", "\x7f", " ", "  lead", "trail ", "#c", "- x", "? y", "& z", "* w", "%", "@", "`", "|", ">-", "!t", "~", "=", "<<x", "é", "日本", "😀", "\u2028", "\u0085", "\ufeff", "\u00a0",
	"a.b", "a=b&c", "2020-01-02", "2020-01-02T03:04:05Z", "12:30:45", "0x1f", "0o17", "1_000", "+1", ".5", "5.", "inf", "nan", ".inf", "on", "off", "Y", "n", "ſ", "K", "k", "ß", "\\u0041", "\\x41", "${x}", "a,b", "NaN"}

func genByteString(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return string(b)
}

func genRune(r *rand.Rand) rune {
	for {
		var x rune
		switch r.Intn(8) {
		case 0:
			x = rune(r.Intn(0x20))
		case 1, 2, 3:
			x = rune(0x20 + r.Intn(0x60))
		case 4:
			x = rune(0x80 + r.Intn(0x780))
		case 5:
			x = rune(0x800 + r.Intn(0xf800))
		case 6:
			x = []rune{0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x2028, 0x2029, 0xfeff, 0x85}[r.Intn(15)]
		default:
			x = rune(0x10000 + r.Intn(0x100000))
		}
		if x >= 0xd800 && x <= 0xdfff {
			continue
		}
		return x
	}
}

func genLen(r *rand.Rand, max int) int {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1, 2, 3, 4, 5:
		return min(max, 1+r.Intn(6))
	case 6, 7:
		return min(max, r.Intn(20))
	case 8:
		return min(max, r.Intn(70))
	default:
		return min(max, r.Intn(max+1))
	}
}

var wraps = []string{`""`, `''`, "[]", "{}", "  ", `\"`, "%%", "``", "()", "\n\n", "##", "--", "::", ",,", `\\`}

// wrapped makes a string that looks like part of a text: quoted, bracketed, or a document's text.
func wrapped(r *rand.Rand, max int) string {
	var s string
	switch r.Intn(3) {
	case 0:
		s = []string{`{}`, `[]`, `{"a":1}`, `[1,"b"]`, `{"a":{"b":[]}}`, `{"`, `]`, `a:1`, `"a":`, `null`, `1`, `{"___jnid_":1}`, `<1>`}[r.Intn(13)]
	case 1:
		s = someStrings[r.Intn(len(someStrings))]
	default:
		s = string(rune('a' + r.Intn(3)))
	}
	if w := wraps[r.Intn(len(wraps))]; r.Intn(4) > 0 {
		s = w[:1] + s + w[1:]
	}
	if len(s) > max {
		return ""
	}
	return s
}

// genString makes a string; utf says it must be valid UTF-8.
func genString(r *rand.Rand, utf bool, max int) string {
	switch r.Intn(11) {
	case 10:
		return wrapped(r, max)
	case 0, 1, 2:
		s := someStrings[r.Intn(len(someStrings))]
		if len(s) > max {
			s = ""
		}
		return s
	case 3:
		return strings.Repeat(string(rune('a'+r.Intn(3))), genLen(r, max))
	case 4:
		if !utf {
			return genByteString(r, genLen(r, max))
		}
		fallthrough
	case 5:
		var sb strings.Builder
		for n := genLen(r, max); sb.Len() < n; {
			sb.WriteRune(genRune(r))
		}
		return sb.String()
	case 6:
		const sp = "\"\\/\b\f\n\r\t{}[]:,' <>#&-"
		var sb strings.Builder
		for n := genLen(r, max); sb.Len() < n; {
			sb.WriteByte(sp[r.Intn(len(sp))])
		}
		return sb.String()
	case 7:
		a, b := someStrings[r.Intn(len(someStrings))], someStrings[r.Intn(len(someStrings))]
		if len(a)+len(b) > max {
			return ""
		}
		return a + b
	default:
		var sb strings.Builder
		for n := genLen(r, max); sb.Len() < n; {
			sb.WriteByte(byte(0x20 + r.Intn(0x5f)))
		}
		return sb.String()
	}
}

var someInts = []int64{0, 1, -1, 2, 9, 10, 99, 100, 127, 128, 255, 256, -128, -129, 32767, 65535, 65536, 1 << 31, 1<<31 - 1, -(1 << 31), 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 999999999999999999, 1000000000000000000, -999999999999999999}

func genInt(r *rand.Rand) int64 {
	switch r.Intn(4) {
	case 0:
		return someInts[r.Intn(len(someInts))]
	case 1:
		return int64(r.Intn(2000) - 1000)
	default:
		return int64(r.Uint64()) >> uint(r.Intn(64))
	}
}

var someFloats = []float64{0, 1, -1, 0.5, 1.5, -2.5, 0.1, 0.2, 0.3, 1e5, 1e6, 1e15, 1e16, 1e20, 1e21, 1e22, 1e23, 1e-5, 1e-6, 1e-7, 123456.789, 3.141592653589793, 1e100, 1e-100, 1e300, 1e-300, math.MaxFloat64, 9007199254740993, 9223372036854775807, 9223372036854775808, -9223372036854775808, 18446744073709551616, 1.0000000000000002, 0.30000000000000004, 12345678.9, 100, 1234567890123456789}

func genFloat(r *rand.Rand) float64 {
	switch r.Intn(5) {
	case 0:
		return someFloats[r.Intn(len(someFloats))]
	case 1:
		return float64(r.Intn(20000)-10000) / 100
	case 2:
		f, _ := strconv.ParseFloat(fmt.Sprintf("%d.%de%d", r.Intn(10), r.Intn(1000000), r.Intn(600)-300), 64)
		return f
	case 3:
		for {
			f := math.Float64frombits(r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) && math.Abs(f) > 1e-300 {
				return f
			}
		}
	default:
		return r.NormFloat64() * math.Pow(10, float64(r.Intn(12)-4))
	}
}

type genCfg struct {
	utf     bool // strings are valid UTF-8
	nodes   int  // node budget
	maxStr  int
	noFloat bool
	f32     bool
	key     func(r *rand.Rand) string
}

func genValue(r *rand.Rand, g *genCfg, depth int) *V {
	k := r.Intn(20)
	if g.nodes <= 0 || depth <= 0 {
		k = r.Intn(12)
	}
	g.nodes--
	switch {
	case k == 0:
		return &V{T: 'n'}
	case k <= 2:
		return &V{T: 'b', B: r.Intn(2) == 0}
	case k <= 5:
		return &V{T: 'i', I: genInt(r)}
	case k <= 7:
		if g.noFloat {
			return &V{T: 'i', I: genInt(r)}
		}
		if g.f32 && r.Intn(4) == 0 {
			return &V{T: 'f', F: float64(float32(r.NormFloat64() * 100)), Bit: 32}
		}
		return &V{T: 'f', F: genFloat(r), Bit: 64}
	case k <= 11:
		return &V{T: 's', S: genString(r, g.utf, g.maxStr)}
	case k <= 15:
		v := &V{T: 'a'}
		for n := genWidth(r, g); n > 0; n-- {
			v.A = append(v.A, genValue(r, g, depth-1))
		}
		return v
	default:
		v := &V{T: 'o'}
		seen := map[string]bool{}
		for n := genWidth(r, g); n > 0; n-- {
			var key string
			if g.key != nil {
				key = g.key(r)
			} else {
				key = genKey(r, g)
			}
			if seen[key] || key == "___jnid_" {
				continue
			}
			seen[key] = true
			v.O = append(v.O, KV{key, genValue(r, g, depth-1)})
		}
		return v
	}
}

func genKey(r *rand.Rand, g *genCfg) string {
	switch r.Intn(6) {
	case 0, 1:
		return string(rune('a' + r.Intn(6)))
	case 2:
		return fmt.Sprintf("key%d", r.Intn(40))
	case 3:
		return fmt.Sprint(r.Intn(12))
	default:
		return genString(r, g.utf, min(g.maxStr, 40))
	}
}

func genWidth(r *rand.Rand, g *genCfg) int {
	var n int
	switch r.Intn(8) {
	case 0:
		n = 0
	case 1, 2, 3, 4:
		n = 1 + r.Intn(3)
	case 5, 6:
		n = r.Intn(10)
	default:
		n = r.Intn(60)
	}
	if n > g.nodes+1 {
		n = g.nodes + 1
	}
	return max(n, 0)
}

// genDoc makes a value of a random shape and size.
func genDoc(r *rand.Rand, utf bool, nodes, maxStr int) *V {
	g := &genCfg{utf: utf, maxStr: maxStr, nodes: 1 + r.Intn(nodes)}
	switch r.Intn(24) {
	case 0: // deep nesting
		v := genValue(r, g, 1)
		for n := r.Intn(30); n > 0; n-- {
			if r.Intn(2) == 0 {
				v = &V{T: 'a', A: []*V{v}}
			} else {
				v = &V{T: 'o', O: []KV{{genKey(r, g), v}}}
			}
		}
		return fixKeys(v)
	case 1: // one long string
		return &V{T: 's', S: genString(r, utf, 700)}
	case 2: // a wide object
		v := &V{T: 'o'}
		for _, i := range r.Perm(20 + r.Intn(50)) {
			v.O = append(v.O, KV{fmt.Sprintf("k%d", i), &V{T: 'i', I: int64(i)}})
		}
		return v
	case 3: // a wide array
		v := &V{T: 'a'}
		for n := 20 + r.Intn(100); n > 0; n-- {
			v.A = append(v.A, &V{T: 'i', I: int64(n)})
		}
		return v
	case 4: // every byte as a string, a few at a time
		v := &V{T: 'a'}
		b0 := r.Intn(256)
		for i := 0; i < 16; i++ {
			b := (b0 + i) % 256
			if utf {
				v.A = append(v.A, &V{T: 's', S: string(rune(b))})
			} else {
				v.A = append(v.A, &V{T: 's', S: string([]byte{byte(b)})})
			}
		}
		return v
	case 5: // keys that are hard to order or quote
		v := &V{T: 'o'}
		seen := map[string]bool{}
		for n := 4 + r.Intn(12); n > 0; n-- {
			k := genString(r, utf, 12)
			if r.Intn(2) == 0 {
				k = k + someStrings[r.Intn(len(someStrings))]
			}
			if !seen[k] && k != "___jnid_" {
				seen[k] = true
				v.O = append(v.O, KV{k, genValue(r, g, 1)})
			}
		}
		return v
	}
	v := genValue(r, g, 6)
	if r.Intn(3) > 0 && v.T != 'o' && v.T != 'a' {
		v = &V{T: 'o', O: []KV{{genKey(r, g), v}, {genKey(r, g) + "2", genValue(r, g, 5)}}}
	}
	return fixKeys(v)
}

func fixKeys(v *V) *V {
	var o []KV
	seen := map[string]bool{}
	for _, x := range v.O {
		if x.K != "___jnid_" && !seen[x.K] {
			seen[x.K] = true
			o = append(o, x)
		}
	}
	v.O = o
	return v
}

// single says whether a number has the same text in single and in double precision.
func single(f float64) bool {
	return float64(float32(f)) == f && strconv.FormatFloat(f, 'g', -1, 32) == strconv.FormatFloat(f, 'g', -1, 64)
}

// build makes the real document through the library's constructors and setters.
func build(r *rand.Rand, v *V) jsonutils.JSONObject {
	switch v.T {
	case 'n':
		return jsonutils.JSONNull
	case 'b':
		if r.Intn(2) == 0 {
			return jsonutils.NewBool(v.B)
		}
		if v.B {
			return jsonutils.JSONTrue
		}
		return jsonutils.JSONFalse
	case 'i':
		return jsonutils.NewInt(v.I)
	case 'f':
		if v.Bit == 32 || v.Sgl {
			return jsonutils.NewFloat32(float32(v.F))
		}
		switch r.Intn(4) {
		case 0:
			return jsonutils.NewFloat64(v.F)
		case 1:
			if single(v.F) {
				return jsonutils.NewFloat32(float32(v.F))
			}
		}
		return jsonutils.NewFloat(v.F)
	case 's':
		// the text of a time, in UTC and whole seconds, wherever the time is told
		if t, err := time.Parse("2006-01-02T15:04:05Z", v.S); err == nil && r.Intn(2) == 0 && t.Format("2006-01-02T15:04:05Z") == v.S {
			zone := time.FixedZone("", (r.Intn(27*4)-12*4)*900)
			return jsonutils.NewTimeString(t.Add(time.Duration(r.Intn(1000000000))).In(zone))
		}
		return jsonutils.NewString(v.S)
	case 'a':
		a := jsonutils.NewArray()
		switch how := r.Intn(4); how {
		case 0, 1:
			var xs []jsonutils.JSONObject
			for _, x := range v.A {
				xs = append(xs, build(r, x))
			}
			if how == 0 {
				a = jsonutils.NewArray(xs...)
			} else {
				a = &jsonutils.JSONArray{}
				a.Add(xs...)
			}
			for i := range xs { // the caller's slice is the caller's
				xs[i] = nil
			}
			return a
		case 2:
			a = &jsonutils.JSONArray{}
		}
		for _, x := range v.A {
			a.Add(build(r, x))
		}
		return a
	default:
		d := jsonutils.NewDict()
		how := r.Intn(3)
		if r.Intn(3) == 0 {
			d = &jsonutils.JSONDict{}
		}
		for _, x := range v.O {
			if how == 0 {
				one := jsonutils.NewDict()
				one.Set(x.K, build(r, x.V))
				d.Update(one)
			} else if how == 1 {
				d.Set(x.K, build(r, x.V))
			} else {
				must(d.Add(build(r, x.V), x.K))
			}
		}
		return d
	}
}
