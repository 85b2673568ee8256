package main

import (
	"math/rand"

	"github.com/sjwhitworth/golearn/kdtree"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/metrics/pairwise"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
	"gonum.org/v1/gonum/mat"
)

// points with many ties: small ranges, duplicates, points on a line.
func points(rng *rand.Rand, n, dim, max int, nonzero bool) [][]int {
	out := make([][]int, n)
	line := rng.Intn(5) == 0
	for i := range out {
		out[i] = vec(rng, dim, max, nonzero)
		if i > 0 && rng.Intn(5) == 0 {
			out[i] = append([]int{}, out[rng.Intn(i)]...)
		}
		if line && (i > 0 || !nonzero) {
			for j := 1; j < dim; j++ {
				out[i][j] = out[0][j]
			}
			if nonzero && out[i][0] == 0 {
				out[i][0] = 1
			}
		}
	}
	return out
}

func init() {
	vh.Register("C17", func(c *vh.Ctx) {
		search := func(size string) func(t *vh.T) {
			return func(t *vh.T) {
				tree := kdtree.New()
				builds := 1
				if size == "small" && t.Rng.Intn(4) == 0 {
					builds = 2 // the tree is built again for other points
				}
				for b := 0; b < builds; b++ {
					n := 1 + t.Rng.Intn(14)
					dim := 1 + t.Rng.Intn(3)
					max := 1 + t.Rng.Intn(5)
					searches := 8
					switch size {
					case "large":
						n = 30 + t.Rng.Intn(60)
					case "many":
						n, searches = 260+t.Rng.Intn(300), 3
						if t.Rng.Intn(3) == 0 {
							dim, max = 1, 1 // mostly equal points
						}
					case "wide":
						dim = 20 + t.Rng.Intn(60)
					}
					cos := t.Rng.Intn(4) == 0 && size != "wide"
					far := size != "wide" && t.Rng.Intn(4) == 0 // hardly any ties
					if far {
						max = 60
						cos = false
					}
					pts := points(t.Rng, n, dim, max, cos)
					sc := anyScale(t.Rng, !cos)
					data := make([][]float64, n)
					for i := range pts {
						data[i] = sc.floats(pts[i])
					}
					must(tree.Build(data))
					none := make([]int, n)
					t.Log(vh.Ev{"e": "Store", "rows": pts, "cls": none, "exp": sc.exp, "off": sc.off})
					for s := 0; s < searches; s++ {
						m := metricNames[t.Rng.Intn(3)]
						if sc.off == 0 && !far {
							m = metricNames[t.Rng.Intn(4)]
						}
						if cos {
							m = metricNames[t.Rng.Intn(5)]
							if !shiftable(m) && sc.off != 0 {
								m = "euclidean"
							}
						}
						var f pairwise.PairwiseDistanceFunc = metrics[m]
						d := dim
						if t.Rng.Intn(20) == 0 {
							d++
						}
						target := vec(t.Rng, d, max, cos)
						if d == dim && t.Rng.Intn(3) == 0 {
							target = append([]int{}, pts[t.Rng.Intn(n)]...)
						}
						k := 1 + t.Rng.Intn(n)
						switch t.Rng.Intn(8) {
						case 0:
							k = n
						case 1:
							k = n + 1 + t.Rng.Intn(2)
						case 2:
							k = 1
						}
						if size != "small" && t.Rng.Intn(2) == 0 {
							k = 1 + t.Rng.Intn(5)
						}
						ids, dists, err := tree.Search(k, f, sc.floats(target))
						out := "ok"
						if err != nil {
							out = "err"
						}
						gi, gd := make([]int, 0), make([]int, 0)
						for i := range ids {
							gi = append(gi, ids[i]+1)
							if ids[i] >= 0 && ids[i] < n {
								gd = append(gd, measure(m, sc.back(m, dists[i]), target, pts[ids[i]]))
							}
						}
						t.Log(vh.Ev{"e": "Search", "m": m, "target": target, "k": k, "out": out, "ids": gi, "dists": gd})
					}
				}
			}
		}
		for i := 0; i < c.N(400, 6000); i++ {
			c.Case("small", search("small"))
		}
		for i := 0; i < c.N(40, 600); i++ {
			c.Case("large", search("large"))
		}
		for i := 0; i < c.N(10, 80); i++ {
			c.Case("many", search("many"))
			c.Case("wide", search("wide"))
		}
		for i := 0; i < 4; i++ {
			what := []string{"ids", "dists"}[i%2]
			c.Canary(what, search("large"), func(evs []vh.Ev) []vh.Ev {
				for _, e := range evs {
					if l, ok := e[what].([]interface{}); ok && len(l) > 0 {
						l[0] = l[0].(float64) + 1000
						break
					}
				}
				return evs
			})
		}
	})
	vh.Register("C18", func(c *vh.Ctx) {
		avg := func(size string) func(t *vh.T) {
			return func(t *vh.T) {
				m := metricNames[t.Rng.Intn(2)]
				r := knn.NewKnnRegressor(m)
				fits := 1
				if t.Rng.Intn(4) == 0 {
					fits = 2 // fitted again on other data
				}
				for f := 0; f < fits; f++ {
					n := 1 + t.Rng.Intn(9)
					dim := 1 + t.Rng.Intn(3)
					max := 1 + t.Rng.Intn(5)
					switch size {
					case "many":
						n, max = 260+t.Rng.Intn(200), 10000
						if dim > 2 {
							dim = 2
						}
					case "wide":
						dim = 20 + t.Rng.Intn(100)
					}
					pts := points(t.Rng, n, dim, max, false)
					if size == "many" { // few ties: no row twice
						for i := range pts {
							pts[i] = vec(t.Rng, dim, max, false)
						}
					}
					sc := anyScale(t.Rng, true)
					vals := make([]int, n)
					var flat, fv []float64
					for i := range pts {
						vals[i] = t.Rng.Intn(201) - 100
						flat = append(flat, sc.floats(pts[i])...)
						fv = append(fv, float64(vals[i]))
					}
					r.Fit(fv, flat, n, dim)
					t.Log(vh.Ev{"e": "Store", "rows": pts, "cls": vals, "exp": sc.exp, "off": sc.off})
					searches := 8
					if size == "many" {
						searches = 2
					}
					for s := 0; s < searches; s++ {
						target := vec(t.Rng, dim, max, false)
						if t.Rng.Intn(3) == 0 {
							target = append([]int{}, pts[t.Rng.Intn(n)]...)
						}
						k := 1 + t.Rng.Intn(n)
						if t.Rng.Intn(6) == 0 {
							k = n
						}
						p := r.Predict(mat.NewDense(1, dim, sc.floats(target)), k)
						t.Log(vh.Ev{"e": "Average", "m": m, "target": target, "k": k, "sum": near(p * float64(k))})
					}
				}
			}
		}
		for i := 0; i < c.N(400, 6000); i++ {
			c.Case("mean", avg("small"))
		}
		for i := 0; i < c.N(10, 100); i++ {
			c.Case("many", avg("many"))
			c.Case("wide", avg("wide"))
		}
		for i := 0; i < 4; i++ {
			c.Canary("sum", avg("small"), func(evs []vh.Ev) []vh.Ev {
				evs[1]["sum"] = evs[1]["sum"].(float64) + 1000
				return evs
			})
		}
	})
}
