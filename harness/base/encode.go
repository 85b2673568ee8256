package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// labelText makes distinct label texts, some of them awkward.
func labelText(rng *rand.Rand, n int) []string {
	pool := []string{"", " ", "a", "A", "a ", "0", "00", "1.0", "?", ",", "\"", "\\", "null", "é", "日本", "<&>", "{\"x\":1}", "\n", "tab\t", "values", "a\u0301", "\u2028", "-1", "nan", "%s", "true"}
	for i := len(pool); i < n; i++ {
		pool = append(pool, fmt.Sprintf("label %d", i))
	}
	rng.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	return pool
}

func restore(a base.Attribute, how int) (base.Attribute, error) {
	if how == 0 {
		b, err := base.SerializeAttribute(a)
		if err != nil {
			return nil, err
		}
		return base.DeserializeAttribute(b)
	}
	m, err := base.MarshalAttribute(a)
	if err != nil {
		return nil, err
	}
	b, err := json.Marshal([]interface{}{m})
	if err != nil {
		return nil, err
	}
	as, err := base.DeserializeAttributes(b)
	if err != nil {
		return nil, err
	}
	return as[0], nil
}

type encOp struct {
	Op         string
	H, X, Code int
}

func encodeScenario(raw json.RawMessage) func(t *vh.T) {
	return func(t *vh.T) {
		var ops []encOp
		must(json.Unmarshal(raw, &ops))
		most := 0
		for _, o := range ops {
			if o.X >= most {
				most = o.X + 1
			}
		}
		text := labelText(t.Rng, most)
		name := text[20]
		num := map[string]int{}
		for i, s := range text {
			num[s] = i
		}
		fresh := func() *base.CategoricalAttribute {
			a := base.NewCategoricalAttribute()
			a.SetName(name)
			return a
		}
		as := []*base.CategoricalAttribute{fresh()}
		shown := func(e vh.Ev) vh.Ev {
			ds := [][]int{}
			eq := [][]bool{}
			for _, a := range as {
				d := []int{}
				for _, s := range a.GetValues() {
					k, ok := num[s]
					if !ok {
						k = -1
					}
					d = append(d, k)
				}
				ds = append(ds, d)
				row := []bool{}
				for _, b := range as {
					row = append(row, a.Equals(b))
				}
				eq = append(eq, row)
			}
			e["dicts"], e["eq"] = ds, eq
			return e
		}
		code := func(b []byte) int {
			if b == nil {
				return 0
			}
			return int(base.UnpackBytesToU64(b)) + 1
		}
		for _, o := range ops {
			switch o.Op {
			case "Enc":
				t.Log(shown(vh.Ev{"e": "Enc", "h": o.H, "x": o.X, "code": code(as[o.H-1].GetSysValFromString(text[o.X]))}))
			case "Look":
				t.Log(shown(vh.Ev{"e": "Look", "h": o.H, "x": o.X, "code": code(as[o.H-1].GetSysVal(text[o.X]))}))
			case "Dec":
				b := base.PackU64ToBytes(uint64(o.Code - 1))
				s := as[o.H-1].GetStringFromSysVal(b)
				if s2 := as[o.H-1].GetUsrVal(b); s2 != s {
					s = "?different"
				}
				k, ok := num[s]
				if !ok {
					k = -1
				}
				t.Log(shown(vh.Ev{"e": "Dec", "h": o.H, "code": o.Code, "x": k}))
			case "Restore":
				r, err := restore(as[o.H-1], t.Rng.Intn(2))
				ca, ok := r.(*base.CategoricalAttribute)
				if err != nil || !ok {
					ca = fresh()
				}
				as = append(as, ca)
				t.Log(shown(vh.Ev{"e": "Restore", "h": o.H, "ok": err == nil && ok && r.GetName() == name}))
			case "Fresh":
				as = append(as, fresh())
				t.Log(shown(vh.Ev{"e": "Fresh"}))
			}
		}
	}
}

// decimal writes n/10^d.
func decimal(n, d int) string {
	s := fmt.Sprintf("%0*d", d+1, abs(n))
	if d > 0 {
		s = s[:len(s)-d] + "." + s[len(s)-d:]
	}
	if n < 0 {
		s = "-" + s
	}
	return s
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// undecimal reads a decimal without going through floats: the digits and how many follow the point.
func undecimal(s string) (int, int) {
	d := 0
	if i := strings.IndexByte(s, '.'); i >= 0 {
		d = len(s) - i - 1
		s = s[:i] + s[i+1:]
	}
	var n int
	if _, err := fmt.Sscanf(s, "%d", &n); err != nil {
		return vh.BadInt, -1
	}
	return n, d
}

func init() {
	vh.Register("C13", func(c *vh.Ctx) {
		scn := c.Scenarios("encode")
		for _, raw := range scn {
			c.Case("history", encodeScenario(raw))
		}
		for i := 0; i < c.N(2, 10); i++ {
			c.Case("many", func(t *vh.T) {
				ops := []encOp{}
				for _, x := range t.Rng.Perm(300) {
					ops = append(ops, encOp{"Enc", 1, x, 0})
				}
				ops = append(ops, encOp{"Restore", 1, 0, 0})
				for i := 0; i < 60; i++ {
					ops = append(ops, encOp{[]string{"Enc", "Look"}[i%2], 1 + i%4/2, t.Rng.Intn(302), 0}, encOp{"Dec", 1 + i%2, 0, 240 + t.Rng.Intn(60)})
				}
				raw, err := json.Marshal(ops)
				must(err)
				encodeScenario(raw)(t)
			})
		}
		for i := 0; i < c.N(60, 1000); i++ {
			c.Case("number", func(t *vh.T) {
				for k := 0; k < 20; k++ {
					prec := t.Rng.Intn(13)
					more := t.Rng.Intn(3)
					n := t.Rng.Intn(1<<uint(1+t.Rng.Intn(27))) - t.Rng.Intn(1<<uint(1+t.Rng.Intn(27)))
					a := base.NewFloatAttribute("x")
					a.Precision = prec
					in := decimal(n, prec+more)
					v := a.GetSysValFromString(in)
					text := a.GetStringFromSysVal(v)
					shown, digits := undecimal(text)
					v2 := a.GetSysValFromString(text)
					r, err := restore(a, k%2)
					must(err)
					t.Log(vh.Ev{"e": "Num", "n": n, "prec": prec, "more": more, "in": in, "text": text, "shown": shown, "digits": digits, "again": a.GetStringFromSysVal(v2),
						"bits": vh.Hex(v), "bitsAgain": vh.Hex(v2), "restored": r.GetStringFromSysVal(r.GetSysValFromString(in)), "equal": a.Equals(r) && r.Equals(a)})
				}
			})
		}
		for i := 0; i < 2; i++ {
			i := i
			c.Case("bit", func(t *vh.T) {
				for bit := 0; bit < 2; bit++ {
					a := base.NewBinaryAttribute("b")
					s := a.GetStringFromSysVal([]byte{byte(bit)})
					r, err := restore(a, i)
					must(err)
					v := r.GetSysValFromString(s)
					t.Log(vh.Ev{"e": "Bit", "bit": bit, "shown": s, "back": int(v[0]), "equal": a.Equals(r) && r.Equals(a) && len(v) == 1})
				}
			})
		}
		for i := 0; i < 3 && i < len(scn); i++ {
			for _, what := range []string{"code", "dicts", "eq"} {
				what := what
				c.Canary(what, encodeScenario(scn[i]), func(evs []vh.Ev) []vh.Ev {
					for j := len(evs) - 1; j >= 0; j-- {
						e := evs[j]
						switch {
						case what == "code" && e["code"] != nil:
							e["code"] = e["code"].(float64) + 1
							return evs
						case what == "dicts" && len(e["dicts"].([]interface{})[0].([]interface{})) > 0:
							d := e["dicts"].([]interface{})[0].([]interface{})
							d[0] = 99
							return evs
						case what == "eq":
							d := e["eq"].([]interface{})[0].([]interface{})
							d[0] = false
							return evs
						}
					}
					return evs
				})
			}
		}
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
