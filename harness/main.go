package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"yunion.io/x/log"
)

// Ctx runs the cases of one check. Every case has its own random source, made
// from the seed and the case number, so that one case can be run again alone.
type Ctx struct {
	Seed     int64
	Thorough bool
	In       string // file with cases made by the specification
	only     int
	idx      int
	out      *Out
	prog     *os.File
	cur      int64 // case number + 1
	since    int64
}

func (c *Ctx) Scale(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Case runs one case and records what it returns, or its panic.
func (c *Ctx) Case(id string, fn func(r *rand.Rand) M) {
	c.idx++
	i := c.idx
	if c.only > 0 && c.only != i {
		return
	}
	c.prog.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
	atomic.StoreInt64(&c.since, time.Now().UnixNano())
	atomic.StoreInt64(&c.cur, int64(i))
	r := rand.New(rand.NewSource(c.Seed*1000003 + int64(i)*7919 + 17))
	var rec M
	func() {
		defer func() {
			if e := recover(); e != nil {
				rec = M{"panic": fmt.Sprint(e), "stack": trimStack(string(debug.Stack()))}
			}
		}()
		rec = fn(r)
	}()
	atomic.StoreInt64(&c.cur, 0)
	if rec == nil {
		return
	}
	rec["i"] = i
	rec["id"] = id
	if _, ok := rec["panic"]; !ok {
		rec["panic"] = ""
	}
	c.Emit(rec)
}

func (c *Ctx) Emit(rec M) {
	b, err := json.Marshal(rec)
	must(err)
	c.out.w.Write(b)
	c.out.w.WriteByte('\n')
	c.out.n++
}

// Trie runs the case of one text of Trie.tla; its record is a bare pair.
func (c *Ctx) Trie(idx int, fn func(r *rand.Rand) L) {
	i := idx + 1
	if c.only > 0 && c.only != i {
		return
	}
	c.prog.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
	atomic.StoreInt64(&c.since, time.Now().UnixNano())
	atomic.StoreInt64(&c.cur, int64(i))
	var rec L
	func() {
		defer func() {
			if e := recover(); e != nil {
				rec = L{L{"panic", fmt.Sprint(e), trimStack(string(debug.Stack()))}, 0}
			}
		}()
		rec = fn(nil)
	}()
	atomic.StoreInt64(&c.cur, 0)
	b, err := json.Marshal(rec)
	must(err)
	c.out.w.Write(b)
	c.out.w.WriteByte('\n')
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "jsonutils.") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 8 {
		keep = keep[:8]
	}
	return strings.Join(keep, " | ")
}

func (c *Ctx) watch(limit time.Duration) {
	for {
		time.Sleep(100 * time.Millisecond)
		if cur := atomic.LoadInt64(&c.cur); cur != 0 {
			d := time.Since(time.Unix(0, atomic.LoadInt64(&c.since)))
			if d > limit {
				fmt.Fprintf(os.Stderr, "HANG case %d: no answer after %s\n", cur, limit)
				os.Exit(3)
			}
		}
		if b, err := os.ReadFile("/proc/self/statm"); err == nil {
			f := strings.Fields(string(b))
			pages, _ := strconv.ParseInt(f[1], 10, 64)
			if pages*4096 > 8<<30 {
				fmt.Fprintf(os.Stderr, "MEMORY case %d: more than 8 GB in use\n", atomic.LoadInt64(&c.cur))
				os.Exit(4)
			}
		}
	}
}

var checks = map[string]func(c *Ctx){}

func main() {
	name := flag.String("check", "", "")
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "", "")
	prog := flag.String("progress", "/dev/null", "")
	only := flag.Int("only", 0, "")
	in := flag.String("in", "", "")
	limit := flag.Duration("limit", 20*time.Second, "")
	flag.Parse()
	fn, ok := checks[*name]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check", *name)
		os.Exit(5)
	}
	log.Logger().Out = io.Discard
	debug.SetMaxStack(256 << 20)
	c := &Ctx{Seed: *seed, Thorough: *tier == "thorough", In: *in, only: *only, out: newOut(*out)}
	var err error
	c.prog, err = os.OpenFile(*prog, os.O_CREATE|os.O_WRONLY, 0644)
	must(err)
	go c.watch(*limit)
	fn(c)
	must(c.out.w.Flush())
	must(c.out.f.Close())
}
