package main

// Texts: standard JSON in all its spellings, the relaxed notation, mutations
// and truncations, byte noise, offsets and streams.

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"yunion.io/x/jsonutils"
)

func init() {
	checks["C01"] = c01
	checks["C03"] = c03
	checks["C04"] = c04
	checks["C05"] = c05
}

type textGen struct {
	r   *rand.Rand
	sb  strings.Builder
	odd bool // a number is spelled with more digits than its shortest text
	ws  int  // 0 none, 1 some, 2 lots
}

func (g *textGen) space() {
	if g.ws == 0 || g.ws == 1 && g.r.Intn(3) > 0 {
		return
	}
	for n := g.r.Intn(3); n >= 0; n-- {
		g.sb.WriteByte(" \t\r\n"[g.r.Intn(4)])
	}
}

func (g *textGen) str(s string) {
	g.sb.WriteByte('"')
	style := g.r.Intn(4)
	for len(s) > 0 {
		c, n := utf8.DecodeRuneInString(s)
		if c == utf8.RuneError && n <= 1 {
			g.sb.WriteByte(s[0])
			s = s[1:]
			continue
		}
		s = s[n:]
		short := map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}[c]
		must := c < 0x20 || c == '"' || c == '\\'
		esc := must || style == 3 || style == 2 && g.r.Intn(4) == 0
		if !esc {
			g.sb.WriteRune(c)
			continue
		}
		if short != "" && g.r.Intn(2) == 0 {
			g.sb.WriteString(short)
			continue
		}
		f := []string{`\u%04x`, `\u%04X`}[g.r.Intn(2)]
		if c >= 0x10000 {
			a, b := utf16.EncodeRune(c)
			fmt.Fprintf(&g.sb, f+f, a, b)
		} else {
			fmt.Fprintf(&g.sb, f, c)
		}
	}
	g.sb.WriteByte('"')
}

func (g *textGen) float(f float64) {
	r := g.r
	s := strconv.FormatFloat(math.Abs(f), 'e', -1, 64)
	p := strings.IndexByte(s, 'e')
	exp, _ := strconv.Atoi(s[p+1:])
	d := strings.Replace(s[:p], ".", "", 1)
	exp++ // 0.d * 10^exp
	if math.Signbit(f) {
		g.sb.WriteByte('-')
	}
	if r.Intn(3) > 0 || exp > 40 || exp < -30 {
		// point somewhere, exponent making up for it
		k := r.Intn(len(d) + 1)
		ip, fp := d[:k], d[k:]
		if k == 0 {
			ip = "0"
		} else if k > 1 && ip[0] == '0' {
			ip = "0"
			fp = d[1:]
			k = 1
		}
		if r.Intn(4) == 0 {
			fp += strings.Repeat("0", 1+r.Intn(3))
		}
		g.sb.WriteString(ip)
		if fp != "" {
			g.sb.WriteString("." + fp)
		}
		x := exp - k
		g.sb.WriteByte("eE"[r.Intn(2)])
		if x < 0 {
			g.sb.WriteByte('-')
			x = -x
		} else if r.Intn(2) == 0 {
			g.sb.WriteByte('+')
		}
		if r.Intn(3) == 0 {
			g.sb.WriteByte('0')
		}
		g.sb.WriteString(strconv.Itoa(x))
		return
	}
	t := strconv.FormatFloat(math.Abs(f), 'f', -1, 64)
	if !strings.Contains(t, ".") && r.Intn(2) == 0 {
		t += ".0"
	} else if strings.Contains(t, ".") && r.Intn(3) == 0 {
		t += strings.Repeat("0", 1+r.Intn(4))
	}
	g.sb.WriteString(t)
}

func (g *textGen) rfc(v *V) {
	r := g.r
	switch v.T {
	case 'n':
		g.sb.WriteString("null")
	case 'b':
		g.sb.WriteString(strconv.FormatBool(v.B))
	case 'i':
		g.sb.WriteString(strconv.FormatInt(v.I, 10))
	case 'f':
		g.float(v.F)
	case 's':
		g.str(v.S)
	case 'a':
		g.sb.WriteByte('[')
		g.space()
		for i, x := range v.A {
			if i > 0 {
				g.space()
				g.sb.WriteByte(',')
				g.space()
			}
			g.rfc(x)
		}
		g.space()
		g.sb.WriteByte(']')
	default:
		g.sb.WriteByte('{')
		g.space()
		kv := append([]KV{}, v.O...)
		r.Shuffle(len(kv), func(i, j int) { kv[i], kv[j] = kv[j], kv[i] })
		if len(kv) > 0 && r.Intn(4) == 0 { // an earlier member that a later one overrides
			o := kv[r.Intn(len(kv))]
			kv = append([]KV{{o.K, &V{T: 'a', A: []*V{{T: 's', S: "overridden"}}}}}, kv...)
		}
		for i, x := range kv {
			if i > 0 {
				g.space()
				g.sb.WriteByte(',')
				g.space()
			}
			g.str(x.K)
			g.space()
			g.sb.WriteByte(':')
			g.space()
			g.rfc(x.V)
		}
		g.space()
		g.sb.WriteByte('}')
	}
}

var bareWords = []string{"null", "NULL", "none", "None", "true", "True", "yes", "YES", "false", "no", "No", "a", "abc", "0", "1", "-1", "+1", "007", "1.5", ".5", "5.", "-.5e3", "1e5", "1E-7", "1_000.5", "1_0", "_1", "0x10", "0x1p4", "0X1.8P-1", "inf", "-inf", "+Infinity", "nan", "NaN", "-nan", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "1e308", "1e309", "1e400", "-1e999", "1e-400", "1e", "e1", "1e+", "--1", "+-1", "1-", "a-b", "a/b", "a\"b", "it's", "<1>", "<", ">", "<>", "<a>", "<-1>", "<99999999999999999999>", "<1", "1>", "日本", "\\n", "{", "a=b", "(x)", "1,5", "on", "off"}

func (g *textGen) quoted(s string) {
	r := g.r
	q := byte('"')
	if r.Intn(2) == 0 {
		q = '\''
	}
	g.sb.WriteByte(q)
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == q || c == '\\':
			g.sb.WriteByte('\\')
			g.sb.WriteByte(c)
		case r.Intn(12) == 0:
			fmt.Fprintf(&g.sb, []string{`\x%02x`, `\x%02X`}[r.Intn(2)], c)
		case r.Intn(20) == 0 && !strings.ContainsRune("bfnrtux", rune(c)):
			g.sb.WriteByte('\\')
			g.sb.WriteByte(c)
		case r.Intn(30) == 0:
			g.sb.WriteString([]string{`\ud83d`, `\ude00`, `\ud83d\ude00`, `\ud83d\ud83d\ude00`, `\uD83Dx`, `\u0000`, `\ud83d\n`}[r.Intn(7)])
		default:
			g.sb.WriteByte(c)
		}
	}
	g.sb.WriteByte(q)
}

func (g *textGen) relaxed(depth int) {
	r := g.r
	k := r.Intn(10)
	if depth <= 0 {
		k = r.Intn(6)
	}
	switch {
	case k < 3:
		g.sb.WriteString(bareWords[r.Intn(len(bareWords))])
	case k < 6:
		g.quoted(genString(r, r.Intn(2) == 0, 20))
	case k < 8:
		g.sb.WriteByte('[')
		for n := r.Intn(5); n > 0; n-- {
			g.space()
			if r.Intn(8) > 0 {
				g.relaxed(depth - 1)
			}
			g.space()
			if n > 1 || r.Intn(4) == 0 {
				g.sb.WriteByte(',')
			}
		}
		g.space()
		g.sb.WriteByte(']')
	default:
		g.sb.WriteByte('{')
		for n := r.Intn(5); n > 0; n-- {
			g.space()
			switch r.Intn(8) {
			case 0, 1:
				g.sb.WriteString(bareWords[r.Intn(len(bareWords))])
			case 2:
				g.sb.WriteString([]string{"___jnid_", `"___jnid_"`}[r.Intn(2)])
			case 3, 4:
				g.sb.WriteString(string(rune('a' + r.Intn(3))))
			default:
				g.quoted(genString(r, true, 8))
			}
			g.space()
			g.sb.WriteByte(':')
			g.space()
			if r.Intn(10) > 0 {
				g.relaxed(depth - 1)
			}
			g.space()
			if n > 1 || r.Intn(4) == 0 {
				g.sb.WriteByte(',')
			}
		}
		g.space()
		g.sb.WriteByte('}')
	}
}

// what other languages take for white space or leave out, and JSON does not
var oddSpace = []string{"\x00", "\x00\x00", "\v", "\f", "\x1f", "\x7f", "\x85", "\xa0", "\u0085", "\u00a0", "\u2028", "\u3000", "\ufeff", "\xfe\xff", "//\n", "/**/", "#\n", ";", "\b", "\x1e"}

func mutate(r *rand.Rand, s string) string {
	if r.Intn(8) == 0 {
		i := 0
		if r.Intn(3) > 0 {
			i = r.Intn(len(s) + 1)
		}
		return s[:i] + oddSpace[r.Intn(len(oddSpace))] + s[i:]
	}
	const pal = "{}[]:,\"'\\ \n\tux0a1<>-.e_n"
	b := []byte(s)
	for n := 1 + r.Intn(3); n > 0; n-- {
		if len(b) == 0 {
			b = append(b, pal[r.Intn(len(pal))])
			continue
		}
		i := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = pal[r.Intn(len(pal))]
		case 2:
			b = append(b[:i], append([]byte{pal[r.Intn(len(pal))]}, b[i:]...)...)
		case 3:
			b = b[:i]
		case 4:
			j := i + r.Intn(len(b)-i)
			b = append(b[:i], b[j:]...)
		default:
			b[i] = byte(r.Intn(256))
		}
	}
	return string(b)
}

func genText(r *rand.Rand, nodes int) string {
	g := &textGen{r: r, ws: r.Intn(3)}
	switch r.Intn(6) {
	case 0:
		g.rfc(genDoc(r, false, nodes, 30))
	case 1:
		g.rfc(genDoc(r, false, nodes, 30))
		return mutate(r, g.sb.String())
	case 2, 3:
		g.relaxed(4)
		return mutate(r, g.sb.String())
	default:
		g.relaxed(4)
	}
	return g.sb.String()
}

const maxText = 1500

func c03(c *Ctx) {
	for n := c.Scale(1500, 20000); n > 0; n-- {
		c.Case("rfc", func(r *rand.Rand) M {
			v := genDoc(r, r.Intn(3) > 0, 50, 100)
			g := &textGen{r: r, ws: r.Intn(3)}
			g.space()
			g.rfc(v)
			g.space()
			t := g.sb.String()
			if len(t) > maxText {
				return nil
			}
			b := []byte(t)
			out := outcome2(jsonutils.Parse(exact(b)))
			return M{"k": "rfc", "t": BS(t), "v": v.enc(), "odd": g.odd, "out": parsed(t), "out2": out}
		})
	}
	for n := c.Scale(300, 4000); n > 0; n-- { // numbers with arbitrary digits
		c.Case("number", func(r *rand.Rand) M {
			t := strconv.Itoa(r.Intn(10))
			if t != "0" {
				for n := r.Intn(22); n > 0; n-- {
					t += strconv.Itoa(r.Intn(10))
				}
			}
			if r.Intn(2) == 0 {
				t = "-" + t
			}
			if r.Intn(2) == 0 {
				t += "."
				for n := r.Intn(14); n >= 0; n-- {
					t += strconv.Itoa(r.Intn(10))
				}
			}
			if r.Intn(3) == 0 {
				t += string("eE"[r.Intn(2)]) + []string{"", "+", "-"}[r.Intn(3)] + strconv.Itoa(r.Intn(250))
			}
			return M{"k": "text", "t": BS(t), "out": parsed(t)}
		})
	}
}

func c04(c *Ctx) {
	for n := c.Scale(900, 12000); n > 0; n-- {
		c.Case("text", func(r *rand.Rand) M {
			t := genText(r, 12)
			if len(t) > 400 {
				return nil
			}
			return M{"k": "text", "t": BS(t), "out": parsed(t)}
		})
	}
	// every byte beside every byte that means something, in every surrounding
	marks := " \t\r\n{}[]:,\"'\\/<>+-._0ax\x00\x80"
	around := [][2]string{{"", ""}, {"[", "]"}, {"[a", "b]"}, {"{\"k\":", "}"}, {"{", ":1}"}, {"[\"", "\"]"}, {"['", "']"}, {"[1,", ",2]"}, {"{a:b", ",c:d}"}}
	pairs := func(mid string, n int) {
		for i := 0; i < n; i++ {
			a := around[(int(c.Seed)+len(mid)+int(mid[0])*7+int(mid[1])+i)%len(around)]
			t := a[0] + mid + a[1]
			c.Case("pair", func(r *rand.Rand) M { return M{"k": "text", "t": BS(t), "out": parsed(t)} })
		}
	}
	for i := 0; i < len(marks); i++ {
		for b := 0; b < 256; b++ {
			pairs(string([]byte{marks[i], byte(b)}), c.Scale(1, len(around)))
			pairs(string([]byte{byte(b), marks[i]}), c.Scale(1, len(around)))
		}
		for j := 0; j < len(marks); j++ {
			for k := 0; k < len(marks); k++ {
				if c.Scale(0, 1) > 0 || (i*31+j*17+k+int(c.Seed))%5 == 0 {
					pairs(string([]byte{marks[i], marks[j], marks[k]}), c.Scale(1, 3))
				}
			}
		}
	}
	// every byte behind a backslash, and digits behind that
	for b := 0; b < 256; b++ {
		for i, rest := range []string{"0041", "41", "ud83d\\" + string([]byte{byte(b)}) + "de00", "zz", "", "{00e9}", "101"} {
			q := "\"'"[(b+i+int(c.Seed))%2:][:1]
			t := q + "x\\" + string([]byte{byte(b)}) + rest + q
			if i%2 == 0 {
				t = []string{"[" + t + "]", "{" + t + ":1}"}[b%2]
			}
			c.Case("escape", func(r *rand.Rand) M { return M{"k": "text", "t": BS(t), "out": parsed(t)} })
		}
	}
	// words, and words hardly other
	for _, w := range nearWords(c) {
		for i := c.Scale(1, 3); i > 0; i-- {
			a := [][2]string{{"[", "]"}, {"{\"k\":", "}"}, {"", ""}, {"[1, ", " ,x]"}, {"{", ":1}"}, {" ", "\n"}}[(len(w)+int(w[0])+int(w[len(w)-1])+int(c.Seed)+i)%6]
			t := a[0] + w + a[1]
			c.Case("word", func(r *rand.Rand) M { return M{"k": "text", "t": BS(t), "out": parsed(t)} })
		}
	}
	// every cut of a text
	for n := c.Scale(25, 250); n > 0; n-- {
		var t string
		r0 := rand.New(rand.NewSource(c.Seed*77 + int64(n)))
		for t == "" || len(t) > 90 {
			g := &textGen{r: r0, ws: 1}
			if n%2 == 0 {
				g.rfc(genDoc(r0, true, 10, 12))
			} else {
				g.relaxed(4)
			}
			t = g.sb.String()
		}
		for i := range t {
			cut := t[:i]
			c.Case("cut", func(r *rand.Rand) M { return M{"k": "text", "t": BS(cut), "out": parsed(cut)} })
		}
	}
}

func nearWords(c *Ctx) []string {
	var out []string
	r := rand.New(rand.NewSource(c.Seed * 131))
	like := map[byte][]string{'s': {"\u017f", "5", "$"}, 'n': {"\u00f1", "m"}, 'e': {"\u00e9", "3", "\u0435"}, 'l': {"1", "\u0131", "I"},
		'o': {"0", "\u03bf", "\u00d6"}, 'u': {"\u00fc", "v"}, 'i': {"\u0130", "1", "l"}, 'f': {"\ufb01", "ph"}, 't': {"7"}, 'a': {"@", "\u212b"}, 'k': {"\u212a"}, 'y': {"j"}}
	for _, w := range []string{"null", "none", "true", "yes", "false", "no", "nil", "nan", "inf", "infinity", "on", "off", "undefined", "void",
		"y", "n", "t", "f", "ok", "nope", "enable", "disable", "na", "-inf", "+inf", "1e1", "0x1p1", "1_0", "0b1", "0o7", "017", "1e400", "-0", "1.", ".5", "1f", "0d", "1l", "12:30", "2020-01-01", "~", "()", "#t", "#f"} {
		out = append(out, w, strings.ToUpper(w), strings.ToUpper(w[:1])+w[1:], w[:len(w)-1]+strings.ToUpper(w[len(w)-1:]))
		for _, x := range []string{"+", "-", ".", "0", "1", "_", "\x00", "\x80", "\u00e9", "\u00a0", "\u3000", "!", "\\", "/", "e", "s", "\ufeff", "=", ";", "\v", "\f", "\x7f"} {
			if x != w[:1] || len(w) > 1 {
				out = append(out, x+w, w+x)
			}
		}
		for i := range w {
			if len(w) > 1 {
				out = append(out, w[:i]+w[i+1:])
			}
			out = append(out, w[:i]+w[i:i+1]+w[i:], w[:i]+"\xff"+w[i+1:])
			for _, x := range like[w[i]] {
				out = append(out, w[:i]+x+w[i+1:])
			}
			b := []byte(w)
			b[i] ^= 1 << r.Intn(8)
			out = append(out, string(b))
		}
	}
	return out
}

func c05(c *Ctx) {
	for n := c.Scale(900, 12000); n > 0; n-- {
		c.Case("offset", func(r *rand.Rand) M {
			pre := genText(r, 5)
			if r.Intn(3) == 0 {
				pre = genByteString(r, r.Intn(20))
			}
			post := ""
			switch r.Intn(3) {
			case 0:
				post = genText(r, 5)
			case 1:
				post = []string{" ", "}", "]", ",", ":", "\n[1]", "x", "\"", "\x00"}[r.Intn(9)]
			}
			mid := strings.Repeat(" ", r.Intn(3)) + genText(r, 8)
			if r.Intn(6) == 0 {
				mid = oddSpace[r.Intn(len(oddSpace))] + mid
			}
			full := pre + mid + post
			if len(full) > 500 {
				return nil
			}
			o, pos, err := jsonutils.ParseStream(exact([]byte(full)), len(pre))
			return M{"k": "offset", "t": BS(full), "off": len(pre), "out": outcome(o, err), "pos": pos}
		})
	}
	for n := c.Scale(900, 12000); n > 0; n-- {
		c.Case("stream", func(r *rand.Rand) M {
			var sb strings.Builder
			for n := r.Intn(7); n >= 0; n-- {
				switch r.Intn(6) {
				case 0: // text without an opening bracket
					s := strings.Map(func(c rune) rune {
						if c == '{' || c == '[' {
							return '.'
						}
						return c
					}, genString(r, true, 20))
					sb.WriteString(s)
				case 1: // a broken fragment
					g := &textGen{r: r}
					g.rfc(genDoc(r, true, 6, 8))
					t := g.sb.String()
					if len(t) > 0 {
						sb.WriteString(t[:r.Intn(len(t))])
					}
				case 2:
					g := &textGen{r: r}
					g.relaxed(3)
					sb.WriteString(mutate(r, g.sb.String()))
				case 3:
					sb.WriteString([]string{"\n", " ", "", ",", "\r\n", "}", "]", "\"", "data: "}[r.Intn(9)])
				default:
					g := &textGen{r: r, ws: r.Intn(2)}
					g.rfc(genDoc(r, true, 6, 10))
					sb.WriteString(g.sb.String())
				}
			}
			t := sb.String()
			if len(t) > 500 {
				return nil
			}
			ds, err := jsonutils.ParseJsonStreams(exact([]byte(t)))
			rec := M{"k": "stream", "t": BS(t), "out": L{"err"}}
			if err == nil {
				rec["out"] = outcome(jsonutils.NewArray(ds...), nil)
				if ds == nil {
					rec["out"] = L{"neither"}
				}
			} else if len(ds) > 0 {
				rec["out"] = L{"both"}
			}
			return rec
		})
	}
}

func c01(c *Ctx) {
	for n := c.Scale(3000, 60000); n > 0; n-- {
		c.Case("noise", func(r *rand.Rand) M {
			var t string
			switch r.Intn(12) {
			case 0:
				t = genByteString(r, r.Intn(30))
			case 1: // nested openings
				t = strings.Repeat([]string{"[", "{", "{\"a\":", "[{a:"}[r.Intn(4)], r.Intn([]int{10, 20, 40, 120}[r.Intn(4)]))
			case 2:
				t = genYAMLText(r)
			case 3:
				t = genQueryText(r)
			default:
				t = genText(r, 20)
				if r.Intn(2) == 0 {
					t = mutate(r, t)
				}
			}
			off := 0
			if len(t) > 0 && r.Intn(3) == 0 {
				off = r.Intn(len(t) + 1)
			}
			var outs L
			see := func(o jsonutils.JSONObject, err error) {
				outs = append(outs, outcome(o, err)[0])
				if err == nil {
					exercise(o)
				} else {
					_ = err.Error()
				}
			}
			_ = jsonutils.NewJSONError(exact([]byte(t)), r.Intn(len(t)+8)-4, "x").Error()
			o, pos, err := jsonutils.ParseStream(exact([]byte(t)), off)
			see(o, err)
			see(jsonutils.Parse(exact([]byte(t))))
			see(jsonutils.ParseString(t))
			see(jsonutils.ParseYAML(t))
			see(jsonutils.ParseQueryString(t))
			ds, err := jsonutils.ParseJsonStreams(exact([]byte(t)))
			if (err == nil) == (ds != nil) {
				outs = append(outs, "ok")
			} else {
				outs = append(outs, "neither")
			}
			for _, d := range ds {
				exercise(d)
			}
			return M{"k": "total", "outs": outs, "pos": pos - off, "len": len(t) - off, "text": BS(t)}
		})
	}
}

func genYAMLText(r *rand.Rand) string {
	frag := []string{"a: 1\n", "b:\n", "  - x\n", "- y\n", "  c: {d: [1, 2]}\n", "&anc v\n", "*anc\n", "? k\n", ": v\n", "|\n  text\n", ">-\n  f\n", "# c\n", "---\n", "...\n", "\t", "!!int 3\n", "<<: *anc\n", "'q'\n", "\"e\\x41\"\n", "~\n", "1.5\n", ".inf\n", "0x1f\n", "2001-01-01\n", "true: yes\n", "1: 2\n", "[a, b: c]\n", "{x, y: }\n", "\x00", "\xff"}
	var sb strings.Builder
	for n := r.Intn(8); n >= 0; n-- {
		sb.WriteString(frag[r.Intn(len(frag))])
	}
	return sb.String()
}

func genQueryText(r *rand.Rand) string {
	frag := []string{"a", "b", "a.b", "a.0", "a.1", "a.0.b", "0", "1", ".", "..", "a.", ".a", "=", "=1", "=x", "&", "&", "&", "%20", "%", "%zz", "+", ";", "?", "#", "a[0]", "中", "%E4%B8", "=true", "-1", "a.-1", "a.00", "a.+1", "99999999999999999999", "a.99999999999999999999", "10000000"}
	var sb strings.Builder
	for n := r.Intn(12); n >= 0; n-- {
		sb.WriteString(frag[r.Intn(len(frag))])
	}
	return sb.String()
}
