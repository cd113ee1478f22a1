package main

// Records: what the real code did, written for the specification to judge.
// A document is written as the specification's value (see spec/JValue.tla).

import (
	"bufio"
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"yunion.io/x/jsonutils"
)

// BS is a byte string, written as an array of numbers.
type BS string

func (b BS) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, len(b)*4+2)
	out = append(out, '[')
	for i := 0; i < len(b); i++ {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(b[i]), 10)
	}
	return append(out, ']'), nil
}

// exact is a copy without room behind it: reading past its end is an error of the reader.
func exact(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c[:len(b):len(b)]
}

type L = []interface{}
type M = map[string]interface{}

// encFloat splits a float's shortest decimal text into the specification's form.
func encFloat(f float64, bit int) L {
	if math.IsNaN(f) {
		return L{"f", false, BS("?"), 1}
	}
	if math.IsInf(f, 0) {
		return L{"f", f < 0, BS("?"), 2}
	}
	neg := math.Signbit(f)
	s := strconv.FormatFloat(math.Abs(f), 'e', -1, bit)
	p := strings.IndexByte(s, 'e')
	exp, _ := strconv.Atoi(s[p+1:])
	digs := strings.TrimRight(strings.Replace(s[:p], ".", "", 1), "0")
	if digs == "" {
		return L{"f", neg, BS(""), 0}
	}
	return L{"f", neg, BS(digs), exp + 1}
}

// nidOf reads the node id off the text of an object, "" if there is none.
func nidOf(d *jsonutils.JSONDict) string {
	const p = `{"___jnid_":`
	s := d.String()
	if !strings.HasPrefix(s, p) {
		return ""
	}
	s = s[len(p):]
	i := 0
	for i < len(s) && (s[i] == '-' || s[i] >= '0' && s[i] <= '9') {
		i++
	}
	return s[:i]
}

type encOpts struct{ nids bool }

// Enc projects a document to the specification's value.
func Enc(o jsonutils.JSONObject) L { return enc(o, true, 0) }

// EncNoId projects without looking at node ids (quadratic otherwise).
func EncNoId(o jsonutils.JSONObject) L { return enc(o, false, 0) }

func enc(o jsonutils.JSONObject, nids bool, depth int) L {
	if depth > 70 { // a loop, most likely; TLC reads no more than 255 nested brackets
		return L{"deep"}
	}
	switch v := o.(type) {
	case nil:
		return L{"nil"}
	case *jsonutils.JSONBool:
		return L{"b", v.Value()}
	case *jsonutils.JSONInt:
		return L{"i", BS(strconv.FormatInt(v.Value(), 10))}
	case *jsonutils.JSONFloat:
		return encFloat(v.Value(), 64)
	case *jsonutils.JSONString:
		return L{"s", BS(v.Value())}
	case *jsonutils.JSONArray:
		xs := L{}
		for _, x := range v.Value() {
			xs = append(xs, enc(x, nids, depth+1))
		}
		return L{"a", xs}
	case *jsonutils.JSONDict:
		m := v.Value()
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		ms := L{}
		for _, k := range keys {
			ms = append(ms, L{BS(k), enc(m[k], nids, depth+1)})
		}
		nid := ""
		if nids {
			nid = nidOf(v)
		}
		return L{"o", ms, BS(nid)}
	case *jsonutils.JSONValue:
		return L{"n"}
	default:
		s := o.String()
		if strings.HasPrefix(s, "<") && strings.HasSuffix(s, ">") {
			return L{"r", BS(s[1 : len(s)-1])}
		}
		return L{"?", BS(fmt.Sprintf("%T", o))}
	}
}

// ---------------------------------------------------------------------
// Specification-side values made by the generators, and their encoding.

type KV struct {
	K string
	V *V
}
type V struct {
	T   byte // n b i f s a o
	B   bool
	I   int64
	F   float64
	Bit int
	Sgl bool // made as a single, which holds this very value
	S   string
	A   []*V
	O   []KV // unique keys, any order
}

func (v *V) enc() L {
	switch v.T {
	case 'n':
		return L{"n"}
	case 'b':
		return L{"b", v.B}
	case 'i':
		return L{"i", BS(strconv.FormatInt(v.I, 10))}
	case 'f':
		return encFloat(v.F, v.Bit)
	case 's':
		return L{"s", BS(v.S)}
	case 'a':
		xs := L{}
		for _, x := range v.A {
			xs = append(xs, x.enc())
		}
		return L{"a", xs}
	default:
		kv := append([]KV{}, v.O...)
		sort.Slice(kv, func(i, j int) bool { return kv[i].K < kv[j].K })
		ms := L{}
		for _, x := range kv {
			ms = append(ms, L{BS(x.K), x.V.enc()})
		}
		return L{"o", ms, BS("")}
	}
}

// size counts nodes and bytes, to bound a record.
func (v *V) size() int {
	n := 1 + len(v.S)
	for _, x := range v.A {
		n += x.size()
	}
	for _, x := range v.O {
		n += len(x.K) + x.V.size()
	}
	return n
}

// ---------------------------------------------------------------------

type Out struct {
	f *os.File
	w *bufio.Writer
	n int
}

func newOut(path string) *Out {
	f, err := os.Create(path)
	must(err)
	return &Out{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(5)
	}
}
