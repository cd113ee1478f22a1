package main

// The texts of spec/Trie.tla, parsed by the real parser.

import (
	"encoding/json"
	"math/rand"
	"strings"

	"yunion.io/x/jsonutils"
)

func init() { checks["trie"] = trie }

type trieParams struct {
	Tokens []string
	MaxLen int
	Mode   string
}

func trie(c *Ctx) {
	var p trieParams
	inLines(c, func(line []byte) { must(json.Unmarshal(line, &p)) })
	// prefixes for the offset mode, chosen so that none of them can be mistaken for a part of the text
	prefixes := []string{"", "{", "[1,", "\"", "x ", "\\", "]}", "{\"a\":"}
	total := 1
	for i, n := 0, 1; i < p.MaxLen; i++ {
		n *= len(p.Tokens)
		total += n
	}
	for idx := 0; idx < total; idx++ {
		var toks []string
		for k := idx; k > 0; k = (k - 1) / len(p.Tokens) {
			toks = append(toks, p.Tokens[(k-1)%len(p.Tokens)])
		}
		for i, j := 0, len(toks)-1; i < j; i, j = i+1, j-1 {
			toks[i], toks[j] = toks[j], toks[i]
		}
		text := strings.Join(toks, "")
		pre := ""
		if p.Mode == "offset" {
			pre = prefixes[idx%len(prefixes)]
		}
		c.Trie(idx, func(r *rand.Rand) L {
			full := []byte(pre + text)
			o, pos, err := jsonutils.ParseStream(exact(full), len(pre))
			out := outcome(o, err)
			if p.Mode == "total" && err == nil {
				exercise(o)
				o2, err2 := jsonutils.Parse(exact(full))
				exercise(o2)
				if err2 != nil {
					out = L{"differs"}
				}
			}
			if p.Mode == "total" {
				if out[0] == "ok" {
					out = L{"ok"}
				}
				ds, err := jsonutils.ParseJsonStreams(exact(full))
				if (err == nil) != (ds != nil) {
					out = L{"stream"}
				}
				for _, d := range ds {
					exercise(d)
				}
				y, err := jsonutils.ParseYAML(text)
				if v := outcome(y, err); v[0] != "ok" && v[0] != "err" {
					out = L{"yaml"}
				} else if err == nil {
					exercise(y)
				}
				q, err := jsonutils.ParseQueryString(text)
				if v := outcome(q, err); v[0] != "ok" && v[0] != "err" {
					out = L{"query"}
				} else if err == nil {
					exercise(q)
				}
			}
			return L{out, pos - len(pre)}
		})
	}
}
