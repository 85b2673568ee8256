package main

import (
	"math"
	"math/rand"

	"github.com/sjwhitworth/golearn/metrics/pairwise"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
	"gonum.org/v1/gonum/mat"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// near projects a number that should be an integer up to rounding.
func near(f float64) int {
	r := math.Floor(f + 0.5)
	if math.IsNaN(f) || math.Abs(r) > 2000000000 || math.Abs(f-r) > 1e-6*(1+math.Abs(r)*1e-3) {
		return vh.BadInt
	}
	return int(r)
}

func floats(v []int) []float64 {
	out := make([]float64, len(v))
	for i, x := range v {
		out[i] = float64(x)
	}
	return out
}

func norm2(v []int) (s float64) {
	for _, x := range v {
		s += float64(x) * float64(x)
	}
	return
}

var metrics = map[string]pairwise.PairwiseDistanceFunc{
	"euclidean": pairwise.NewEuclidean(), "manhattan": pairwise.NewManhattan(), "chebyshev": pairwise.NewChebyshev(),
	"canberra": pairwise.NewCranberra(), "cosine": pairwise.NewCosine()}
var metricNames = []string{"euclidean", "manhattan", "chebyshev", "canberra", "cosine"}

// scale is a power of two by which every coordinate is multiplied (exactly): no order of distances changes,
// and every distance by the same factor. off is added to every coordinate before that.
type scale struct{ exp, off int }

func anyScale(rng *rand.Rand, shifts bool) scale {
	s := scale{}
	switch rng.Intn(6) {
	case 0:
		s.exp = -(1 + rng.Intn(40))
	case 1:
		s.exp = 1 + rng.Intn(40)
	case 2:
		s.exp = []int{-200, -100, 100, 200}[rng.Intn(4)]
	}
	if shifts && rng.Intn(4) == 0 {
		s.off = []int{1 << 12, -(1 << 20), 1 << 26}[rng.Intn(3)]
	}
	return s
}

func (s scale) floats(v []int) []float64 {
	out := make([]float64, len(v))
	for i, x := range v {
		out[i] = math.Ldexp(float64(x+s.off), s.exp)
	}
	return out
}

// back takes the factor out of a distance again.
func (s scale) back(m string, d float64) float64 {
	if m == "canberra" || m == "cosine" {
		return d
	}
	return math.Ldexp(d, -s.exp)
}

// shiftable metrics don't change when every coordinate moves by the same amount.
func shiftable(m string) bool { return m == "euclidean" || m == "manhattan" || m == "chebyshev" }

// measure turns a distance between x and y into the specification's integer.
func measure(m string, d float64, x, y []int) int {
	switch m {
	case "euclidean":
		return near(d * d)
	case "canberra":
		return near(d * 2520)
	case "cosine":
		s := 1 - d
		return near(s * math.Abs(s) * norm2(x) * norm2(y))
	}
	return near(d)
}

func vec(rng *rand.Rand, n, max int, nonzero bool) []int {
	for {
		v := make([]int, n)
		some := false
		for i := range v {
			v[i] = rng.Intn(2*max+1) - max
			some = some || v[i] != 0
		}
		if some || !nonzero {
			return v
		}
	}
}

func shaped(v []int, row bool) *mat.Dense { return scale{}.shaped(v, row) }

func (s scale) shaped(v []int, row bool) *mat.Dense {
	if row {
		return mat.NewDense(1, len(v), s.floats(v))
	}
	return mat.NewDense(len(v), 1, s.floats(v))
}

func init() {
	vh.Register("C34", func(c *vh.Ctx) {
		pair := func(long bool) func(t *vh.T) {
			return func(t *vh.T) {
				reps := 10
				if long {
					reps = 3
				}
				for rep := 0; rep < reps; rep++ {
					n := 1 + t.Rng.Intn(5)
					if long {
						n = 60 + t.Rng.Intn(240)
					}
					row := t.Rng.Intn(2) == 0
					m := metricNames[t.Rng.Intn(5)]
					max := 5
					if m != "canberra" && !long && t.Rng.Intn(3) == 0 {
						n, max = 1+t.Rng.Intn(3), 100
					}
					x := vec(t.Rng, n, max, m == "cosine")
					y := vec(t.Rng, n, max, m == "cosine")
					switch t.Rng.Intn(6) {
					case 0:
						y = append([]int{}, x...)
					case 1, 2:
						for i := range y {
							y[i] = -x[i]
						}
					}
					if t.Rng.Intn(3) == 0 { // nearly the same, or nearly opposite
						if i := t.Rng.Intn(n); y[i] > 1 {
							y[i]--
						} else if y[i] < -1 {
							y[i]++
						}
					}
					sc := anyScale(t.Rng, shiftable(m))
					f := metrics[m]
					X, Y := sc.shaped(x, row), sc.shaped(y, row)
					d := f.Distance(X, Y)
					self := f.Distance(X, sc.shaped(x, row))
					in := d >= 0 && (m != "cosine" || d <= 2) && self >= 0
					t.Log(vh.Ev{"e": "Dist", "m": m, "x": x, "y": y, "row": row, "exp": sc.exp, "off": sc.off, "out": measure(m, sc.back(m, d), x, y),
						"back": measure(m, sc.back(m, f.Distance(Y, X)), y, x), "inrange": in, "self": measure(m, sc.back(m, self), x, x)})
					touched(t, sc, X, Y, x, y)
					if max > 5 {
						continue // powers of these are too large for the specification's integers
					}
					deg := t.Rng.Intn(4)
					if long {
						deg = t.Rng.Intn(3)
					}
					gamma := []float64{0.01, 0.05, 0.25}[t.Rng.Intn(3)]
					if long {
						gamma = 0.001
					}
					k := []string{"inner", "poly", "polydist", "rbf"}[t.Rng.Intn(4)]
					ks := scale{}
					if k == "inner" || k == "rbf" {
						ks = anyScale(t.Rng, k == "rbf")
						if ks.exp > 100 || ks.exp < -100 {
							ks.exp /= 2
						}
						if ks.off > 1<<20 {
							ks.off = 1 << 20
						}
					}
					X, Y = ks.shaped(x, row), ks.shaped(y, row)
					kern := func(a, b *mat.Dense) int {
						switch k {
						case "inner":
							return near(math.Ldexp(pairwise.NewEuclidean().InnerProduct(a, b), -2*ks.exp))
						case "poly":
							return near(pairwise.NewPolyKernel(deg).InnerProduct(a, b))
						case "polydist":
							d := pairwise.NewPolyKernel(deg).Distance(a, b)
							return near(d * d)
						}
						return near(-math.Log(pairwise.NewRBFKernel(math.Ldexp(gamma, -2*ks.exp)).InnerProduct(a, b)) / gamma)
					}
					t.Log(vh.Ev{"e": "Kernel", "m": k, "x": x, "y": y, "row": row, "exp": ks.exp, "off": ks.off, "degree": deg, "out": kern(X, Y), "back": kern(Y, X)})
					touched(t, ks, X, Y, x, y)
				}
				m := metricNames[t.Rng.Intn(5)]
				n := 2 + t.Rng.Intn(3)
				short, wide := vec(t.Rng, n, 5, true), vec(t.Rng, n+1+t.Rng.Intn(2), 5, true)
				if t.Rng.Intn(2) == 0 {
					short, wide = wide, short
				}
				t.Log(vh.Ev{"e": "Mismatch", "m": m, "out": vh.Try(func() { metrics[m].Distance(shaped(short, false), shaped(wide, false)) })})
			}
		}
		for i := 0; i < c.N(150, 3000); i++ {
			c.Case("pairs", pair(false))
		}
		for i := 0; i < c.N(30, 400); i++ {
			c.Case("long", pair(true))
		}
		for i := 0; i < 4; i++ {
			k := i
			c.Canary("off-by-one", pair(false), func(evs []vh.Ev) []vh.Ev {
				evs[k%2]["out"] = evs[k%2]["out"].(float64) + 1
				return evs
			})
		}
	})
}

// touched reports that something was written to the arguments.
func touched(t *vh.T, sc scale, X, Y *mat.Dense, x, y []int) {
	fx, fy := sc.floats(x), sc.floats(y)
	for i := range x {
		if X.RawMatrix().Data[i] != fx[i] || Y.RawMatrix().Data[i] != fy[i] {
			t.Log(vh.Ev{"e": "Touched"})
		}
	}
}
