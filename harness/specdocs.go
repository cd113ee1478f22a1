package main

// Documents enumerated by the specification (MCDoc), read back.

import (
	"bufio"
	"encoding/json"
	"os"
	"strconv"
)

func decBytes(x interface{}) string {
	if s, ok := x.(string); ok {
		return s
	}
	var b []byte
	for _, y := range x.([]interface{}) {
		b = append(b, byte(y.(float64)))
	}
	return string(b)
}

// decV reads a specification value.
func decV(x interface{}) *V {
	a := x.([]interface{})
	switch a[0].(string) {
	case "n":
		return &V{T: 'n'}
	case "b":
		return &V{T: 'b', B: a[1].(bool)}
	case "i":
		n, err := strconv.ParseInt(decBytes(a[1]), 10, 64)
		must(err)
		return &V{T: 'i', I: n}
	case "f":
		s := "0." + decBytes(a[2]) + "0e" + strconv.Itoa(int(a[3].(float64)))
		if a[1].(bool) {
			s = "-" + s
		}
		f, err := strconv.ParseFloat(s, 64)
		must(err)
		return &V{T: 'f', F: f, Bit: 64}
	case "s":
		return &V{T: 's', S: decBytes(a[1])}
	case "a":
		v := &V{T: 'a'}
		for _, y := range a[1].([]interface{}) {
			v.A = append(v.A, decV(y))
		}
		return v
	default:
		v := &V{T: 'o'}
		for _, y := range a[1].([]interface{}) {
			p := y.([]interface{})
			v.O = append(v.O, KV{decBytes(p[0]), decV(p[1])})
		}
		return v
	}
}

func inLines(c *Ctx, fn func(line []byte)) {
	if c.In == "" {
		return
	}
	f, err := os.Open(c.In)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	for sc.Scan() {
		fn(sc.Bytes())
	}
	must(sc.Err())
}

func specDocs(c *Ctx) []*V {
	var out []*V
	inLines(c, func(line []byte) {
		var x interface{}
		must(json.Unmarshal(line, &x))
		out = append(out, decV(x))
	})
	return out
}
