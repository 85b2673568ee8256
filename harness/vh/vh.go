// Package vh is the recording side of the conformance checks. A driver registers one
// generator per property; the generator describes cases; each case runs real golearn
// code through its exported API and logs events. Cases are written as one JSON line
// each and are judged by TLC against the specification, never here.
package vh

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// Ev is one logged event: "e" names the spec action, the rest are its arguments and results.
type Ev map[string]interface{}

// BadInt stands for a number that is not an integer in range: no specification value equals it.
const BadInt = -2000000001

type T struct {
	ID   string
	Rng  *rand.Rand
	Dir  string // scratch directory of this case
	evs  []Ev
	meta Ev
	mu   sync.Mutex
}

// Log appends an event.
func (t *T) Log(e Ev) {
	t.mu.Lock()
	t.evs = append(t.evs, e)
	t.mu.Unlock()
}

// Note records readable information about the case that the specification ignores.
func (t *T) Note(k string, v interface{}) { t.meta[k] = v }

// Try runs fn, and returns "ok", or "panic: ..." if it panicked.
func Try(fn func()) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = "panic"
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i > 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			LastPanic = fmt.Sprint(r) + "\n" + st
		}
	}()
	fn()
	return "ok"
}

var LastPanic string

// TryErr is Try for a function that may return an error: "ok", "err" or "panic".
func TryErr(fn func() error) (out string) {
	out = "ok"
	p := Try(func() {
		if err := fn(); err != nil {
			out = "err"
			LastPanic = err.Error()
		}
	})
	if p != "ok" {
		return p
	}
	return out
}

type Ctx struct {
	Prop   string
	Seed   int64
	Tier   string
	n      int
	shard  int
	shards int
	from   int
	only   string
	out    *bufio.Writer
	prog   *os.File
	dir    string
	scen   string
	ran    int
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a case count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

func hash(s string) int64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// Case runs fn as one recorded case. name groups cases; the id is unique and stable for (property, seed, tier).
func (c *Ctx) Case(name string, fn func(t *T)) { c.run(name, fn, nil) }

// Canary runs fn and then falsifies the record with mutate: the specification must reject it.
func (c *Ctx) Canary(name string, fn func(t *T), mutate func(evs []Ev) []Ev) {
	c.run("canary-"+name, fn, mutate)
}

func (c *Ctx) run(name string, fn func(t *T), mutate func(evs []Ev) []Ev) {
	c.n++
	id := fmt.Sprintf("%s-%s-%05d", c.Prop, name, c.n)
	if c.only != "" {
		if c.only != id {
			return
		}
	} else if c.n%c.shards != c.shard || c.n < c.from {
		return
	}
	fmt.Fprintf(c.prog, "START %d %s\n", c.n, id)
	seed := hash(fmt.Sprintf("%d/%s/%d", c.Seed, c.Prop, c.n))
	t := &T{ID: id, Rng: rand.New(rand.NewSource(seed)), Dir: c.dir, meta: Ev{}}
	rand.Seed(seed)
	done := make(chan string, 1)
	go func() {
		out := Try(func() { fn(t) })
		done <- out
	}()
	limit := 60 * time.Second
	if c.Thorough() {
		limit = 240 * time.Second
	}
	select {
	case out := <-done:
		if out != "ok" {
			t.Log(Ev{"e": "Panic"})
			t.Note("panic", LastPanic)
		}
	case <-time.After(limit):
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		fmt.Fprintf(os.Stderr, "HANG in %s\n%s\n", id, buf[:n])
		fmt.Fprintf(c.prog, "HANG %d %s\n", c.n, id)
		c.out.Flush()
		os.Exit(7)
	}
	t.mu.Lock()
	evs := t.evs
	t.mu.Unlock()
	if mutate != nil {
		// deep copy through JSON, then falsify
		b, _ := json.Marshal(evs)
		var cp []Ev
		json.Unmarshal(b, &cp)
		evs = mutate(cp)
	}
	if len(evs) == 0 {
		evs = []Ev{{"e": "Nothing"}}
	}
	rec := map[string]interface{}{"id": id, "n": c.n, "name": name, "ev": evs, "note": t.meta}
	b, err := json.Marshal(rec)
	if err != nil {
		panic(err)
	}
	c.out.Write(b)
	c.out.WriteByte('\n')
	c.out.Flush()
	c.ran++
}

// Scenarios reads the behaviours TLC generated for this run (one JSON value per line).
func (c *Ctx) Scenarios(name string) []json.RawMessage {
	b, err := ioutil.ReadFile(filepath.Join(c.scen, name+".ndjson"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "no scenarios:", err)
		os.Exit(9)
	}
	var out []json.RawMessage
	for _, ln := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(ln) != "" {
			out = append(out, json.RawMessage(ln))
		}
	}
	return out
}

var gens = map[string]func(c *Ctx){}

func Register(prop string, g func(c *Ctx)) { gens[prop] = g }

func Main() {
	prop := flag.String("prop", "", "property id")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	from := flag.Int("from", 0, "")
	only := flag.String("only", "", "run only this case id")
	out := flag.String("out", "", "")
	prog := flag.String("progress", "", "")
	dir := flag.String("dir", "", "scratch directory")
	scen := flag.String("scen", "", "directory of generated scenarios")
	flag.Parse()
	g, ok := gens[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(9)
	}
	f, err := os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		panic(err)
	}
	p, err := os.OpenFile(*prog, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		panic(err)
	}
	// Keep the library's chatter out of the way.
	if os.Getenv("VERIF_DEBUG") == "" {
		null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		os.Stdout = null
	}
	c := &Ctx{Prop: *prop, Seed: *seed, Tier: *tier, shard: *shard, shards: *shards, from: *from, only: *only,
		out: bufio.NewWriterSize(f, 1<<20), prog: p, dir: *dir, scen: *scen}
	g(c)
	c.out.Flush()
	fmt.Fprintf(p, "END %d\n", c.ran)
}

// ---- projections ----

// Int projects a float that should be an integer.
func Int(f float64) int {
	if math.IsNaN(f) || math.IsInf(f, 0) || f != math.Trunc(f) || math.Abs(f) > 2000000000 {
		return BadInt
	}
	return int(f)
}

// Scaled rounds f*scale to an integer (BadInt when not finite or out of range).
func Scaled(f float64, scale float64) int {
	f = f * scale
	if math.IsNaN(f) || math.IsInf(f, 0) || math.Abs(f) > 2000000000 {
		return BadInt
	}
	return int(math.Floor(f + 0.5))
}

// Hex is the exact bit pattern.
func Hex(b []byte) string {
	return fmt.Sprintf("%x", b)
}

func Ints(fs []float64) []int {
	r := make([]int, len(fs))
	for i, f := range fs {
		r[i] = Int(f)
	}
	return r
}
