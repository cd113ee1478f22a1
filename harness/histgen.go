package main

// Random histories for C07-C14.

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"yunion.io/x/jsonutils"
)

type hprof struct {
	n      int            // variables
	steps  int            // longest history
	w      map[string]int // weights of the operations
	fold   bool           // keys that differ in case
	keys   []string       // keys of its own
	leaves func(r *rand.Rand) *V
	rows   bool     // objects of numbered members
	final  []string // reads made on every variable at the end
}

var foldKeys = []string{"a", "A", "b", "B", "ab", "aB", "Ab", "AB", "k", "K", "K", "s", "S", "ſ", "é", "É", "ß", "ẞ", "ς", "σ", "Σ", "я", "Я", "", "key", "KEY", "Key", "kEy", "_", "-", "1", "a b", "[", "{", "@", "`"}
var plainKeys = []string{"a", "b", "c", "d", "e", "aa", "ab", "ba", "A", "", "0", "1", "10", "2", "z", "é", "\xff", "\x00", "a.b", "null", "key01", "key02", "key03", "key04", "key05", "key06", "key07", "key08", "key09", "key10", "key11"}

func (p *hprof) key(r *rand.Rand) string {
	if p.fold {
		return foldKeys[r.Intn(len(foldKeys))]
	}
	if p.keys != nil && r.Intn(4) > 0 {
		return p.keys[r.Intn(len(p.keys))]
	}
	if r.Intn(3) > 0 {
		return plainKeys[r.Intn(6)]
	}
	return plainKeys[r.Intn(len(plainKeys))]
}

// doc makes a document of moderate size.
func (p *hprof) doc(r *rand.Rand, depth int) *V {
	if p.rows && depth > 0 && r.Intn(4) == 0 {
		return p.row(r, depth-1)
	}
	switch k := r.Intn(10); {
	case depth > 0 && k < 5:
		v := &V{T: 'o'}
		n := r.Intn(4)
		if r.Intn(12) == 0 {
			n = 8 + r.Intn(8)
		}
		for ; n > 0; n-- {
			v.O = append(v.O, KV{p.key(r), p.doc(r, depth-1)})
		}
		return fixKeys(v)
	case depth > 0 && k < 7:
		v := &V{T: 'a'}
		for n := r.Intn(4); n > 0; n-- {
			v.A = append(v.A, p.doc(r, depth-1))
		}
		return v
	}
	if p.leaves != nil {
		return p.leaves(r)
	}
	return leaf(r)
}

// row makes an object of numbered members, a few of them missing or named unusually, with any
// scalars, empty texts in particular.
func (p *hprof) row(r *rand.Rand, depth int) *V {
	v := &V{T: 'o'}
	pre := []string{"", "", "a.", "b.", "a.0."}[r.Intn(5)]
	for i, n := 0, r.Intn(13); i < n; i++ {
		k := pre + fmt.Sprint(i)
		switch r.Intn(16) {
		case 0:
			continue
		case 1:
			k = pre + "0" + fmt.Sprint(i)
		}
		x := &V{T: 's', S: []string{"", "", "x", "0", " "}[r.Intn(5)]}
		if r.Intn(3) == 0 {
			x = p.doc(r, depth)
		}
		v.O = append(v.O, KV{k, x})
	}
	return fixKeys(v)
}

func leaf(r *rand.Rand) *V {
	switch r.Intn(10) {
	case 0, 1:
		return &V{T: 'n'}
	case 2:
		return &V{T: 'b', B: r.Intn(2) == 0}
	case 3, 4:
		return &V{T: 'i', I: int64(r.Intn(5))}
	case 5:
		return &V{T: 'f', F: float64(r.Intn(5)) / 2, Bit: 64}
	default:
		return &V{T: 's', S: []string{"", "x", "y", "1", "a", "A"}[r.Intn(6)]}
	}
}

var numTexts = []string{"0", "1", "-1", "+5", "007", "-0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1.5", "-2.25", "1e3", "1E-2", ".5", "5.", "1_000", "0x10", "0x1p4", " 1", "1 ", "", "-", "+", ".", "e5", "1e", "inf", "-Inf", "NaN", "infinity", "1e400", "99999999999999999999", "1,000", "1.5.2", "٣"}
var boolTexts = []string{"true", "True", "TRUE", "tRue", "on", "ON", "yes", "Yes", "yeſ", "1", "false", "False", "off", "OFF", "no", "No", "0", "t", "f", "y", "n", "10", "01", "", " true", "true ", "none", "null", "2", "-1"}
var timeTexts = []string{"2020-02-29", "2021-02-29", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05+08:00", "2020-01-02T03:04:05-11:30", "2020-01-02 03:04:05", "2020-01-02 03:04:05.123", "2020-01-02T03:04:05.123456789Z", "2020-01-02T03:04:05.1234+01:00", "2020-01-02T03:04Z", "2020-01-02 03:04+02:00", "2020-01-02T03:04:05", "2020-01-02T03:04:05.123456", "20200102030405", "20200102", "01-02-06", "12-31-69", "12-31-68", "Mon, 02 Jan 2006 15:04:05 GMT", "Mon Jan 02 15:04:05 UTC 2006", "02 Jan 06 15:04 UTC", "2020-13-01", "2020-00-10", "2020-01-32T00:00:00Z", "2020-01-02T24:00:00Z", "2020-01-02T23:60:00Z", "1969-12-31T23:59:59Z", "1900-02-29", "2000-02-29", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "2020-01-01T00:00:00+14:00", "2020-12-31T23:00:00-02:00", "  2020-01-02T03:04:05Z  ", "2020-01-02 03:04:05 +0000 UTC", "now", "", "12:30", "1234", "yesterday", "2020-06-30T12:30:45.999Z", "2020-06-30 12:30:45.999999999", "2020-06-30 12:30:45.500+05:30"}

func genTimeText(r *rand.Rand) string {
	if r.Intn(3) > 0 {
		return timeTexts[r.Intn(len(timeTexts))]
	}
	two := func(n int) string { return string([]byte{'0' + byte(n/10), '0' + byte(n%10)}) }
	y := r.Intn(10000)
	s := two(y/100) + two(y%100) + "-" + two(1+r.Intn(12)) + "-" + two(1+r.Intn(31))
	if r.Intn(6) == 0 {
		return s
	}
	s += []string{"T", " "}[r.Intn(2)] + two(r.Intn(24)) + ":" + two(r.Intn(60))
	if r.Intn(5) > 0 {
		s += ":" + two(r.Intn(60))
		if r.Intn(2) == 0 {
			s += "."
			for n := 3 + r.Intn(7); n > 0; n-- {
				s += string(rune('0' + r.Intn(10)))
			}
		}
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		s += []string{"+", "-"}[r.Intn(2)] + two(r.Intn(15)) + ":" + two(r.Intn(60))
	default:
		s += "Z"
	}
	return s
}

// typedLeaf makes scalars that typed accessors have an opinion on.
func typedLeaf(r *rand.Rand) *V {
	str := func(xs []string) *V { return &V{T: 's', S: xs[r.Intn(len(xs))]} }
	switch r.Intn(12) {
	case 0:
		return &V{T: 'n'}
	case 1:
		return &V{T: 'b', B: r.Intn(2) == 0}
	case 2, 3:
		return &V{T: 'i', I: genInt(r)}
	case 4:
		return &V{T: 'f', F: genFloat(r), Bit: 64}
	case 5, 6:
		return str(numTexts)
	case 7:
		return str(boolTexts)
	case 8, 9:
		return &V{T: 's', S: genTimeText(r)}
	case 10:
		return &V{T: 's', S: (&V{T: 'i', I: genInt(r)}).text()}
	default:
		return &V{T: 's', S: genString(r, true, 30)}
	}
}

func (v *V) text() string {
	b := jsonutils.NewInt(v.I)
	return b.String()
}

// path picks a key path that often exists in the document.
func (p *hprof) path(r *rand.Rand, x JO, ic bool) []string {
	var ks []string
	for n := r.Intn(4); n > 0 || len(ks) == 0 && r.Intn(6) > 0; n-- {
		d, ok := x.(*jsonutils.JSONDict)
		if ok && d.Length() > 0 && r.Intn(6) > 0 {
			sk := d.SortedKeys()
			k := sk[r.Intn(len(sk))]
			x, _ = d.Get(k)
			if ic && r.Intn(2) == 0 || r.Intn(9) == 0 {
				k = swapCase(r, k)
			}
			ks = append(ks, k)
			continue
		}
		x = nil
		ks = append(ks, p.key(r))
	}
	return ks
}

func swapCase(r *rand.Rand, s string) string {
	if !utf8.ValidString(s) {
		return s
	}
	switch r.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	var sb strings.Builder
	for _, c := range s {
		if r.Intn(2) == 0 {
			sb.WriteString(strings.ToUpper(string(c)))
		} else {
			sb.WriteString(strings.ToLower(string(c)))
		}
	}
	return sb.String()
}

func (h *hist) pick(ok func(x interface{}) bool) int {
	var is []int
	for i, x := range h.reg {
		if ok(x) {
			is = append(is, i+1)
		}
	}
	if len(is) == 0 {
		return 0
	}
	return is[h.rnd.Intn(len(is))]
}

func isDoc(x interface{}) bool   { _, ok := x.(JO); return ok }
func isDict(x interface{}) bool  { _, ok := x.(*jsonutils.JSONDict); return ok }
func isArr(x interface{}) bool   { _, ok := x.(*jsonutils.JSONArray); return ok }
func isMapS(x interface{}) bool  { _, ok := x.(map[string]JO); return ok }
func isList(x interface{}) bool  { _, ok := x.([]JO); return ok }
func isKeys(x interface{}) bool  { _, ok := x.([]string); return ok }
func isPlain(x interface{}) bool { _, ok := x.(*plain); return ok }

// loops says whether putting x into a container below t would close a loop.
func loops(t, x JO) bool {
	if _, ok := t.(*jsonutils.JSONDict); !ok {
		if _, ok := t.(*jsonutils.JSONArray); !ok {
			return false
		}
	}
	return reach(x, map[JO]bool{})[t]
}

// gen makes up the next call, or nil when the drawn one makes no sense here.
func (h *hist) gen(p *hprof) *hop {
	r := h.rnd
	total := 0
	names := make([]string, 0, len(p.w))
	for _, c := range histOpOrder {
		if p.w[c] > 0 {
			names = append(names, c)
			total += p.w[c]
		}
	}
	x := r.Intn(total)
	var c string
	for _, nm := range names {
		if x -= p.w[nm]; x < 0 {
			c = nm
			break
		}
	}
	o := &hop{c: c, q: 1 + r.Intn(len(h.reg)), k: p.key(r)}
	docv := func() int { return h.pick(isDoc) }
	need := func(i int) bool { return i > 0 }
	switch c {
	case "lit":
		o.r, o.v = o.q, p.doc(r, 3)
		if len(h.vs) > 0 && r.Intn(3) == 0 {
			o.v = again(r, h.vs[r.Intn(len(h.vs))])
		}
		h.vs = append(h.vs, o.v)
	case "set", "rem", "remic", "add":
		if o.r = h.pick(isDict); !need(o.r) {
			return nil
		}
		d := h.dict(o.r)
		if r.Intn(3) == 0 && d.Length() > 0 {
			sk := d.SortedKeys()
			o.k = sk[r.Intn(len(sk))]
		}
		if c == "remic" {
			o.k = swapCase(r, o.k)
		}
		o.s = docv()
		if !need(o.s) {
			return nil
		}
		if c == "add" {
			o.ks = p.path(r, d, false)
			if len(o.ks) == 0 {
				return nil
			}
			for i := 0; i <= len(o.ks); i++ {
				y, err := d.Get(o.ks[:i]...)
				if err == nil && loops(y, h.doc(o.s)) {
					return nil
				}
			}
		} else if c == "set" && loops(d, h.doc(o.s)) {
			return nil
		}
	case "upd", "updd", "diff":
		o.r, o.s = h.pick(isDict), docv()
		if c == "diff" {
			o.s = h.pick(isDict)
			if len(h.reg) < 4 {
				return nil
			}
			o.q = 1 + r.Intn(len(h.reg)-3)
		}
		if !need(o.r) || !need(o.s) || h.doc(o.r) != h.doc(o.s) && loops(h.doc(o.r), h.doc(o.s)) && c != "diff" {
			return nil
		}
	case "app":
		if o.r = h.pick(isArr); !need(o.r) {
			return nil
		}
		for n := r.Intn(4); n > 0; n-- {
			s := docv()
			if loops(h.doc(o.r), h.doc(s)) {
				return nil
			}
			o.ss = append(o.ss, s)
		}
	case "setat":
		if o.r = h.pick(isArr); !need(o.r) {
			return nil
		}
		if o.s = docv(); !need(o.s) || h.array(o.r).Length() == 0 || loops(h.doc(o.r), h.doc(o.s)) {
			return nil
		}
		o.n = r.Intn(h.array(o.r).Length())
	case "copy", "copyx", "copye", "copyi", "keys", "klist":
		if o.r = h.pick(isDict); !need(o.r) {
			return nil
		}
		sk := h.dict(o.r).SortedKeys()
		for n := r.Intn(4); n > 0; n-- {
			if len(sk) > 0 && r.Intn(3) > 0 {
				o.ks = append(o.ks, sk[r.Intn(len(sk))])
			} else {
				o.ks = append(o.ks, p.key(r))
			}
		}
	case "acopy":
		if o.r = h.pick(isArr); !need(o.r) {
			return nil
		}
	case "deep", "size", "zero", "text", "plain":
		if o.r = docv(); !need(o.r) {
			return nil
		}
	case "eq":
		if o.r, o.s = docv(), docv(); !need(o.r) || !need(o.s) {
			return nil
		}
	case "get", "getic", "getat", "map", "arr", "has", "hasic", "int", "float", "bool", "time", "str", "at", "list", "val", "valic":
		o.r = h.pick(isDict)
		if o.r == 0 || r.Intn(8) == 0 {
			o.r = docv()
		}
		if !need(o.r) {
			return nil
		}
		o.ks = p.path(r, h.doc(o.r), strings.HasSuffix(c, "ic"))
		if !isDict(h.doc(o.r)) && r.Intn(2) == 0 {
			o.ks = nil
		}
		o.n = r.Intn(9) - 4
	case "vmap":
		if o.r = h.pick(isDict); !need(o.r) {
			return nil
		}
		o.ks = nil
	case "varr":
		if o.r = h.pick(isArr); !need(o.r) {
			return nil
		}
		o.ks = nil
	case "all", "gset", "gdel", "gget":
		if o.r = h.pick(isPlain); !need(o.r) {
			return nil
		}
		if c == "all" {
			break
		}
		// a way down, into the last map or slice
		x := h.reg[o.r-1].(*plain).v
		for depth := r.Intn(5); ; depth-- {
			var ks []string
			switch v := x.(type) {
			case map[string]interface{}:
				for k := range v {
					ks = append(ks, k)
				}
				sort.Strings(ks)
			case []interface{}:
				for i := range v {
					ks = append(ks, strconv.Itoa(i))
				}
			default:
				if c != "gget" || len(o.ks) == 0 {
					return nil
				}
			}
			if len(o.ks) > 0 && c == "gget" && (depth <= 0 || len(ks) == 0) {
				return o
			}
			var k string
			m, isMap := x.(map[string]interface{})
			if isMap && c != "gget" && r.Intn(3) == 0 {
				k = p.key(r)
			} else if len(ks) > 0 {
				k = ks[r.Intn(len(ks))]
			} else if isMap && c == "gset" {
				k = p.key(r)
			} else {
				return nil
			}
			o.ks = append(o.ks, k)
			var y interface{}
			if isMap {
				y = m[k]
			} else {
				y = plainAt(x, []string{k})
			}
			_, a := y.(map[string]interface{})
			_, b := y.([]interface{})
			if c == "gget" || depth > 0 && (a || b) {
				x = y
				continue
			}
			if c == "gdel" {
				if !isMap {
					return nil
				}
				return o
			}
			o.s = h.pick(func(x interface{}) bool { return isPlain(x) || isDoc(x) && !isDict(x) && !isArr(x) })
			if !need(o.s) || plainReach(h.plainOf(o.s), map[uintptr]bool{})[reflect.ValueOf(x).Pointer()] {
				return nil
			}
			return o
		}
	case "mkstr":
		for n := r.Intn(4); n > 0; n-- {
			o.ks = append(o.ks, p.key(r))
		}
	case "req", "qlist", "slist", "first", "pfx", "qbool":
		o.r = h.pick(isDict)
		if o.r == 0 || r.Intn(8) == 0 {
			o.r = docv()
		}
		if !need(o.r) {
			return nil
		}
		some := func() string {
			if d, ok := h.reg[o.r-1].(*jsonutils.JSONDict); ok && d.Length() > 0 && r.Intn(3) > 0 {
				ks := d.SortedKeys()
				return ks[r.Intn(len(ks))]
			}
			return p.key(r)
		}
		o.k, o.n = some(), r.Intn(2)
		if c == "pfx" && r.Intn(3) > 0 {
			o.k = strings.Split(o.k, ".")[0]
		}
		if c == "slist" {
			o.ks = p.path(r, h.doc(o.r), false)
		} else {
			for n := r.Intn(4); n > 0; n-- {
				o.ks = append(o.ks, some())
			}
		}
	case "texts":
		if o.r = h.pick(isArr); !need(o.r) {
			return nil
		}
	case "mkarr":
		if o.r = h.pick(isList); !need(o.r) {
			return nil
		}
	case "appl":
		if o.r, o.s = h.pick(isArr), h.pick(isList); !need(o.r) || !need(o.s) {
			return nil
		}
		for _, y := range h.reg[o.s-1].([]JO) {
			if loops(h.doc(o.r), y) {
				return nil
			}
		}
	case "mset":
		if o.r, o.s = h.pick(isMapS), docv(); !need(o.r) || !need(o.s) {
			return nil
		}
	case "mdel":
		if o.r = h.pick(isMapS); !need(o.r) {
			return nil
		}
		var sk []string
		for k := range h.reg[o.r-1].(map[string]JO) {
			sk = append(sk, k)
		}
		sort.Strings(sk)
		if len(sk) > 0 && r.Intn(3) > 0 {
			o.k = sk[r.Intn(len(sk))]
		}
	case "lset":
		if o.r, o.s = h.pick(isList), docv(); !need(o.r) || !need(o.s) {
			return nil
		}
		if n := len(h.reg[o.r-1].([]JO)); n == 0 {
			return nil
		} else {
			o.n = r.Intn(n)
		}
	case "kset":
		if o.r = h.pick(isKeys); !need(o.r) {
			return nil
		}
		if n := len(h.reg[o.r-1].([]string)); n == 0 {
			return nil
		} else {
			o.n = r.Intn(n)
		}
	}
	return o
}

var histOpOrder = []string{"lit", "set", "add", "rem", "remic", "upd", "updd", "app", "setat", "copy", "acopy", "copyx", "copye", "copyi", "deep", "diff", "get", "getic", "getat", "map", "vmap", "arr", "varr", "keys", "mkarr", "appl", "mset", "mdel", "lset", "kset", "has", "hasic", "int", "float", "bool", "time", "str", "at", "list", "val", "valic", "size", "zero", "klist", "text", "eq", "plain", "all", "gset", "gdel", "gget", "mkstr", "req", "qlist", "slist", "texts", "first", "pfx", "qbool"}

func (p *hprof) run(r *rand.Rand) M {
	h := newHist(r, p.n)
	for i := 0; i < 1+r.Intn(2); i++ {
		h.do(&hop{c: "lit", r: 1 + i, v: p.doc(r, 3)})
	}
	size := 0
	for n := 2 + r.Intn(p.steps); n > 0; n-- {
		var o *hop
		for try := 0; o == nil && try < 20; try++ {
			o = h.gen(p)
		}
		if o == nil {
			break
		}
		h.do(o)
		size = 0
		for _, b := range h.last {
			size += len(b)
		}
		if size > 6000 {
			break
		}
	}
	if size < 6000 {
		h.do(&hop{c: "mark"})
	}
	return h.rec()
}

var reads = map[string]int{"has": 2, "hasic": 1, "int": 1, "float": 1, "bool": 1, "time": 1, "str": 2, "at": 1, "list": 2, "val": 2, "valic": 1, "size": 2, "zero": 1, "klist": 2, "text": 2, "eq": 2, "deep": 1, "diff": 1, "copy": 1, "map": 1, "arr": 1}

var hprofs = map[string]*hprof{
	"C07": {n: 6, steps: 14, w: map[string]int{"lit": 3, "set": 10, "rem": 6, "upd": 3, "updd": 2, "add": 2, "app": 4, "setat": 4, "get": 4, "getat": 2, "val": 2, "size": 2, "klist": 2, "text": 2, "copy": 1, "remic": 1, "appl": 1, "arr": 1, "mkarr": 1, "deep": 1}},
	"C08": {n: 4, steps: 12, w: map[string]int{"lit": 3, "deep": 1, "add": 10, "val": 6, "has": 5, "get": 2, "set": 1, "rem": 1, "str": 2, "list": 1}},
	"C09": {n: 4, steps: 12, fold: true, w: map[string]int{"lit": 3, "set": 2, "remic": 5, "valic": 8, "hasic": 5, "val": 2, "getic": 2, "rem": 1, "add": 1}},
	"C10": {n: 3, steps: 16, leaves: typedLeaf, w: map[string]int{"lit": 6, "deep": 1, "int": 8, "float": 8, "bool": 8, "time": 8, "str": 6, "at": 6, "list": 6, "get": 3, "getat": 2, "map": 1}},
	"C11": {n: 7, steps: 14, w: map[string]int{"lit": 2, "copy": 3, "acopy": 4, "copyx": 3, "copye": 2, "copyi": 4, "deep": 6, "map": 2, "vmap": 2, "arr": 2, "varr": 2, "keys": 2, "get": 4, "getat": 3, "set": 4, "rem": 3, "app": 3, "setat": 3, "mset": 3, "mdel": 2, "lset": 3, "kset": 2, "mkarr": 2, "appl": 1, "upd": 1, "add": 1}},
	"C12": {n: 7, steps: 10, w: map[string]int{"lit": 4, "upd": 6, "updd": 6, "diff": 5, "set": 3, "rem": 2, "get": 2, "copy": 1, "copyi": 1, "deep": 1, "app": 1}},
	"C13": {n: 5, steps: 12, w: map[string]int{"lit": 4, "eq": 12, "deep": 3, "copy": 2, "set": 2, "rem": 2, "upd": 1, "app": 2, "setat": 1, "text": 2, "get": 1}},
	"C25": {n: 6, steps: 14, w: map[string]int{"lit": 3, "plain": 8, "all": 6, "gset": 6, "gdel": 2, "gget": 2, "set": 3, "rem": 2, "app": 2, "setat": 2, "get": 3, "getat": 2, "eq": 4, "zero": 4, "size": 4, "deep": 1, "upd": 1}},
	"C26": {n: 4, steps: 16, leaves: askLeaf, rows: true, keys: askKeys, w: map[string]int{"lit": 5, "req": 8, "qlist": 8, "slist": 6, "texts": 4, "first": 8, "pfx": 8, "qbool": 8, "mkstr": 2, "set": 3, "rem": 1, "get": 2, "add": 2, "deep": 3}},
	"C14": {n: 4, steps: 16, leaves: typedLeaf, w: reads},
}

// again makes the same document, or nearly, with its members in another order.
func again(r *rand.Rand, v *V) *V {
	w := *v
	w.A, w.O = nil, nil
	for _, x := range v.A {
		w.A = append(w.A, again(r, x))
	}
	for _, i := range r.Perm(len(v.O)) {
		w.O = append(w.O, KV{v.O[i].K, again(r, v.O[i].V)})
	}
	if r.Intn(12) == 0 {
		switch {
		case w.T == 'i':
			return &V{T: 'f', F: float64(w.I), Bit: 64}
		case w.T == 'n':
			return &V{T: 's', S: ""}
		case w.T == 'a' && len(w.A) > 0:
			w.A = w.A[1:]
		case w.T == 'a' && r.Intn(2) == 0:
			return &V{T: 'o'}
		case w.T == 'o' && len(w.O) > 0:
			i := r.Intn(len(w.O))
			w.O[i] = KV{w.O[i].K, leaf(r)}
		case w.T == 's':
			w.S += "x"
		}
	}
	return &w
}

// twin makes a document like v in which some leaves are of another kind or
// spelling but look much the same.
func twin(r *rand.Rand, v *V) *V {
	w := *v
	w.A, w.O = nil, nil
	for _, x := range v.A {
		w.A = append(w.A, twin(r, x))
	}
	for _, i := range r.Perm(len(v.O)) {
		if r.Intn(12) > 0 {
			w.O = append(w.O, KV{v.O[i].K, twin(r, v.O[i].V)})
		}
	}
	if r.Intn(3) > 0 {
		return &w
	}
	switch v.T {
	case 'i':
		return []*V{{T: 'f', F: float64(v.I), Bit: 64}, {T: 's', S: strconv.FormatInt(v.I, 10)}, {T: 'i', I: v.I + 1}, {T: 'a', A: []*V{&w}}}[r.Intn(4)]
	case 'f':
		if i := int64(v.F); float64(i) == v.F && r.Intn(2) == 0 {
			return &V{T: 'i', I: i}
		}
		if n := near(r, v.F); n != nil && r.Intn(3) > 0 {
			return n
		}
		return &V{T: 's', S: strconv.FormatFloat(v.F, 'f', -1, 64)}
	case 'b':
		return []*V{{T: 's', S: strconv.FormatBool(v.B)}, {T: 'i', I: map[bool]int64{true: 1}[v.B]}, {T: 'b', B: !v.B}}[r.Intn(3)]
	case 'n':
		return []*V{{T: 's'}, {T: 's', S: "null"}, {T: 'i'}, {T: 'b'}, {T: 'o'}, {T: 'a'}}[r.Intn(6)]
	case 's':
		switch v.S {
		case "":
			return &V{T: 'n'}
		case "true", "false":
			return &V{T: 'b', B: v.S == "true"}
		case "null":
			return &V{T: 'n'}
		}
		if i, err := strconv.ParseInt(v.S, 10, 64); err == nil {
			return &V{T: 'i', I: i}
		}
		return &V{T: 's', S: []string{v.S + " ", strings.ToUpper(v.S), strings.ToLower(v.S), v.S + "\x00"}[r.Intn(4)]}
	case 'a':
		if len(v.A) == 0 {
			return &V{T: 'o'}
		}
		if r.Intn(3) == 0 && len(w.A) > 1 {
			w.A[0], w.A[1] = w.A[1], w.A[0]
		}
	case 'o':
		if len(v.O) == 0 {
			return &V{T: 'a'}
		}
	}
	return &w
}

// twins puts two documents that are nearly alike next to each other and
// makes the calls that look at two documents.
// near is a number that is hardly another, or the same in another precision.
func near(r *rand.Rand, f float64) *V {
	v := &V{T: 'f', F: f, Bit: 64}
	switch r.Intn(6) {
	case 0:
		v.F = math.Nextafter(f, math.Inf(1))
	case 1:
		v.F = math.Nextafter(f, math.Inf(-1))
	case 2:
		v.F = float64(float32(f))
	case 3: // what the single is written as
		v.F, _ = strconv.ParseFloat(strconv.FormatFloat(f, 'g', -1, 32), 64)
	case 4:
		v.F = -f
	case 5:
		v.F = f + f*1e-10
	}
	if math.IsInf(v.F, 0) || v.F == 0 {
		return nil
	}
	v.Sgl = float64(float32(v.F)) == v.F && r.Intn(3) > 0
	return v
}

// floated has some of the scalars replaced by numbers that are no integers.
func floated(r *rand.Rand, v *V) *V {
	w := *v
	w.A, w.O = nil, nil
	for _, x := range v.A {
		w.A = append(w.A, floated(r, x))
	}
	for _, m := range v.O {
		w.O = append(w.O, KV{m.K, floated(r, m.V)})
	}
	if v.T != 'a' && v.T != 'o' && r.Intn(2) == 0 {
		f := []float64{0.1, 0.5, 1.1, 3.3e9, 1e-7, 123456.78, 16777217.5}[r.Intn(7)] * float64(1+r.Intn(3))
		w = V{T: 'f', F: f, Bit: 64}
		if r.Intn(2) == 0 {
			w.F, w.Sgl = float64(float32(f)), true
		}
	}
	return &w
}

func (p *hprof) twins(r *rand.Rand) M {
	h := newHist(r, 7)
	d := p.doc(r, 3)
	if r.Intn(3) == 0 {
		d = floated(r, d)
	}
	if d.T != 'o' || len(d.O) == 0 {
		d = &V{T: 'o', O: []KV{{p.key(r), d}, {p.key(r), p.doc(r, 1)}}}
		fixKeys(d)
	}
	h.do(&hop{c: "lit", r: 1, v: d})
	h.do(&hop{c: "lit", r: 2, v: twin(r, d)})
	h.do(&hop{c: "eq", r: 1, s: 2})
	h.do(&hop{c: "eq", r: 2, s: 1})
	h.do(&hop{c: "diff", r: 1, s: 2, q: 3})
	if r.Intn(2) == 0 {
		h.do(&hop{c: "updd", r: 1, s: 2})
	} else {
		h.do(&hop{c: "upd", r: 1, s: 2})
	}
	h.do(&hop{c: "eq", r: 1, s: 2})
	return h.rec()
}

var askKeys = []string{"a", "b", "c", "0", "1", "2", "3", "10", "00", "-1", "a.0", "a.1", "a.2", "a.3", "a.00", "b.0", "b.1", "a.", ".0", "a.0.0", "A", "on", "yes"}

// askLeaf makes texts that affirm, or nearly do, in particular.
func askLeaf(r *rand.Rand) *V {
	if r.Intn(2) == 0 {
		return typedLeaf(r)
	}
	s := []string{"true", "yes", "on", "1", "false", "no", "off", "0", "", "y", "t", "tru", "01", "1.0", "null", "x"}[r.Intn(16)]
	switch r.Intn(6) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		s = swapCase(r, s)
	case 2:
		s = []string{" ", "\t", "\n", "\r ", "  "}[r.Intn(5)] + s + []string{"", " ", "\n\n"}[r.Intn(3)]
	case 3:
		s = likeText(r, s)
	}
	return &V{T: 's', S: s}
}

// likeText is a text hardly other than the one given.
func likeText(r *rand.Rand, s string) string {
	switch r.Intn(12) {
	case 0:
		return "0" + s
	case 1:
		return "+" + s
	case 2:
		return "-" + s
	case 3:
		return s + "0"
	case 4:
		return s + ".0"
	case 5:
		return []string{" ", "\t", "\n", "\x00", "\u00a0"}[r.Intn(5)] + s
	case 6:
		return s + []string{" ", "\t", "\n", "\x00", "\u00a0"}[r.Intn(5)]
	case 7:
		return swapCase(r, s)
	case 8:
		return []string{"\"", "'"}[r.Intn(2)] + s + []string{"\"", "'"}[r.Intn(2)]
	case 9:
		if len(s) > 0 {
			return s[:len(s)-1]
		}
	case 10:
		if len(s) > 0 {
			return s[1:]
		}
	}
	return s + s
}

// askedFor asks for every typed value of texts that look like one.
func askedFor(r *rand.Rand, words []string) M {
	h := newHist(r, 3)
	v := &V{T: 'o'}
	for _, w := range words {
		v.O = append(v.O, KV{"k" + strconv.Itoa(len(v.O)), &V{T: 's', S: w}})
		for n := 0; n < 4; n++ {
			v.O = append(v.O, KV{"k" + strconv.Itoa(len(v.O)), &V{T: 's', S: likeText(r, w)}})
		}
	}
	h.do(&hop{c: "lit", r: 1, v: v})
	for _, m := range v.O {
		for _, c := range []string{"int", "float", "bool", "time", "list"} {
			h.do(&hop{c: c, r: 1, ks: []string{m.K}, q: 2})
		}
	}
	return h.rec()
}

func init() {
	for id, p := range hprofs {
		id, p := id, p
		checks[id] = func(c *Ctx) {
			histCases(c)
			n := c.Scale(1500, 15000)
			for ; n > 0; n-- {
				c.Case("history", p.run)
			}
			if id == "C10" {
				words := append(append(append([]string{}, numTexts...), boolTexts...), timeTexts...)
				for i := 0; i < len(words); i += 2 {
					ws := words[i:min(i+2, len(words))]
					c.Case("words", func(r *rand.Rand) M { return askedFor(r, ws) })
				}
			}
			if id == "C12" || id == "C13" {
				for n := c.Scale(300, 6000); n > 0; n-- {
					c.Case("twins", p.twins)
				}
			}
		}
	}
}
