package main

import (
	"encoding/json"
	"math"
	"math/rand"

	"github.com/sjwhitworth/golearn/neural"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
	"gonum.org/v1/gonum/mat"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// funcs are whole-numbered stand-ins for activation functions.
var funcs = map[string]neural.NeuralFunction{
	"linear": neural.Linear,
	"clamp": {Forward: func(v float64) float64 { return math.Max(-6, math.Min(6, v)) }, Backward: func(v float64) float64 {
		if v >= 6 || v <= -6 {
			return 0
		}
		return 1
	}},
	"twice": {Forward: func(v float64) float64 { return 2*v + 1 }, Backward: func(v float64) float64 { return 2 }},
	"mod":   {Forward: func(v float64) float64 { return v - 5*math.Floor(v/5) }, Backward: func(v float64) float64 { return v - 2 }},
}

type netOp struct {
	Op            string
	N, K, S, T, I int
	V, Rate       int
	F             string
	X, Out, Err   []int
}

func column(xs []int, n int) *mat.Dense {
	m := mat.NewDense(n, 1, nil)
	for i, x := range xs {
		m.Set(i, 0, float64(x))
	}
	return m
}

func column2(m *mat.Dense) []int {
	n, _ := m.Dims()
	out := make([]int, n)
	for i := range out {
		out[i] = vh.Int(m.At(i, 0))
	}
	return out
}

// anyHistory is a history of a larger network, sparsely joined.
func anyHistory(rng *rand.Rand) []netOp {
	n := 5 + rng.Intn(20)
	if rng.Intn(3) == 0 {
		n = 25 + rng.Intn(50)
	}
	k := 1 + rng.Intn(n-1)
	f := []string{"linear", "clamp", "twice", "mod"}[rng.Intn(4)]
	ops := []netOp{{Op: "New", N: n, K: k, F: f}}
	vec := func() []int {
		x := make([]int, n)
		for i := range x {
			x[i] = rng.Intn(5) - 2
		}
		return x
	}
	for i := 0; i < 3+rng.Intn(6); i++ {
		for j := 0; j < n/3; j++ {
			ops = append(ops, netOp{Op: "SetWeight", S: 1 + rng.Intn(n), T: 1 + rng.Intn(n), V: rng.Intn(5) - 2})
		}
		ops = append(ops, netOp{Op: "SetBias", I: 1 + rng.Intn(n), V: rng.Intn(5) - 2})
		switch rng.Intn(5) {
		case 0, 1:
			k := 1 + rng.Intn(3)
			if f == "clamp" || f == "mod" {
				k = 1 + rng.Intn(12)
			}
			ops = append(ops, netOp{Op: "Activate", X: vec(), K: k})
		case 2:
			ops = append(ops, netOp{Op: "Error", Out: vec(), Err: vec(), K: 1 + rng.Intn(3)})
		case 3:
			ops = append(ops, netOp{Op: "UpdateWeights", Out: vec(), Err: vec(), Rate: rng.Intn(2)})
		default:
			ops = append(ops, netOp{Op: "UpdateBias", Err: vec(), Rate: rng.Intn(3)})
		}
	}
	return ops
}

func parsed(raw json.RawMessage) func(*rand.Rand) []netOp {
	return func(*rand.Rand) []netOp {
		var ops []netOp
		must(json.Unmarshal(raw, &ops))
		return ops
	}
}

// replay runs a history; weights and biases are in units of unit, or, in networks of linear nodes, values
// and biases are in units of scale.
func replay(history func(*rand.Rand) []netOp, unit, scale float64) func(t *vh.T) {
	return func(t *vh.T) {
		ops := history(t.Rng)
		if scale != 1 && ops[0].F != "linear" {
			scale = 1
		}
		column := func(xs []int, n int, by float64) *mat.Dense {
			m := column(xs, n)
			m.Scale(by, m)
			return m
		}
		column2 := func(m *mat.Dense, by float64) []int {
			c := mat.DenseCopyOf(m)
			c.Scale(1/by, c)
			return column2(c)
		}
		var n *neural.Network
		size := 0
		for _, o := range ops {
			ev := vh.Ev{"e": o.Op}
			switch o.Op {
			case "New":
				n, size = neural.NewNetwork(o.N, o.K, funcs[o.F]), o.N
				for i := 1; i <= o.K; i++ { // inputs carry weight 1 to themselves
					n.SetWeight(i, i, n.GetWeight(i, i)*unit)
				}
				ev["n"], ev["k"], ev["f"] = o.N, o.K, o.F
			case "SetWeight":
				n.SetWeight(o.S, o.T, float64(o.V)*unit)
				ev["s"], ev["t"], ev["v"] = o.S, o.T, o.V
			case "SetBias":
				n.SetBias(o.I, float64(o.V)*unit*scale)
				ev["i"], ev["v"] = o.I, o.V
			case "Activate":
				if unit != 1 {
					continue
				}
				x := column(o.X, size, scale)
				n.Activate(x, o.K)
				ev["x"], ev["k"], ev["got"] = o.X, o.K, column2(x, scale)
			case "Error":
				if unit != 1 {
					continue
				}
				out, err := column(o.Out, size, scale), column(o.Err, size, scale)
				got := n.Error(out, err, o.K)
				ev["out"], ev["err"], ev["k"], ev["got"] = o.Out, o.Err, o.K, column2(got, scale)
				ev["outAfter"], ev["errAfter"] = column2(out, scale), column2(err, scale)
			case "UpdateWeights":
				n.UpdateWeights(column(o.Out, size, 1), column(o.Err, size, 1), float64(o.Rate)*unit)
				ev["out"], ev["err"], ev["rate"] = o.Out, o.Err, o.Rate
			case "UpdateBias":
				n.UpdateBias(column(o.Err, size, scale), float64(o.Rate)*unit)
				ev["err"], ev["rate"] = o.Err, o.Rate
			default:
				continue
			}
			w := make([][]int, size)
			b := make([]int, size)
			for s := range w {
				w[s] = make([]int, size)
				for k := range w[s] {
					w[s][k] = vh.Int(n.GetWeight(s+1, k+1) / unit)
				}
				b[s] = vh.Int(n.GetBias(s+1) / unit / scale)
			}
			ev["w"], ev["b"] = w, b
			t.Log(ev)
		}
	}
}

func init() {
	vh.Register("C35", func(c *vh.Ctx) {
		for i, raw := range c.Scenarios("network") {
			c.Case("history", replay(parsed(raw), 1, 1))
			if i%3 == 0 {
				unit := math.Pow(2, -float64(1+i%40))
				if i%2 == 0 {
					unit *= 1 + math.Pow(2, -40) // needs more digits than a short number has
				}
				c.Case("small", replay(parsed(raw), unit, 1))
			}
			if i%5 == 0 {
				c.Case("scaled", replay(parsed(raw), 1, math.Pow(2, float64(i%81-40))*(1+math.Pow(2, -36))))
			}
			if i < 12 {
				c.Canary("off", replay(parsed(raw), 1, 1), func(evs []vh.Ev) []vh.Ev {
					for _, k := range []string{"got", "b"} {
						for _, e := range evs {
							if v, ok := e[k].([]interface{}); ok {
								v[len(v)-1] = v[len(v)-1].(float64) + 1
								return evs
							}
						}
					}
					return evs
				})
			}
		}
		for i := 0; i < c.N(60, 600); i++ {
			c.Case("large", replay(anyHistory, 1, 1))
		}
		for i := 0; i < c.N(20, 200); i++ {
			c.Case("curve", func(t *vh.T) {
				for k := 0; k < 20; k++ {
					x := float64(t.Rng.Intn(16000)-8000) / 1000
					if k == 0 {
						x = 0
					}
					h := 1e-4
					m := func(f float64) int { return vh.Scaled(f, 1e6) }
					S, P := neural.Sigmoid, neural.SoftplusRectifier
					t.Log(vh.Ev{"e": "Curve", "x": m(x), "s": m(S.Forward(x)), "sneg": m(S.Forward(-x)), "p": m(P.Forward(x)), "pneg": m(P.Forward(-x)),
						"ds": m((S.Forward(x+h) - S.Forward(x-h)) / (2 * h)), "dp": m((P.Forward(x+h) - P.Forward(x-h)) / (2 * h)),
						"ts": m(S.Backward(S.Forward(x))), "tp": m(P.Backward(P.Forward(x))), "line": m(neural.Linear.Forward(x)), "tline": m(neural.Linear.Backward(x))})
				}
			})
		}
	})
}
