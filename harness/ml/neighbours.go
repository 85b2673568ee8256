package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// vectors of whole length, for weighted cosine votes
var whole2 = [][]int{{3, 4}, {4, 3}, {-3, 4}, {4, -3}, {0, 1}, {1, 0}, {0, 5}, {-2, 0}, {-3, -4}, {0, -3}, {6, 8}, {5, 12}}
var whole3 = [][]int{{1, 2, 2}, {2, 1, 2}, {-1, 2, 2}, {2, -2, 1}, {0, 3, 4}, {3, 0, -4}, {0, 0, 2}, {2, 4, 4}, {2, 3, 6}, {-2, -1, -2}}

// layout of a grid: how its columns are held.
type layout struct {
	dim      int
	groups   int   // number of groups the features are spread over
	group    []int // feature -> group
	cat      bool  // an extra categorical column
	catFirst bool
	clsFirst bool
	labels   []string
	chunks   int // rows added in so many steps
	order    []int
	exp, off int // features are (value + off) * 2^exp: no order of distances changes
}

func (l layout) grid(rng *rand.Rand, rows [][]int, cls []int) *base.DenseInstances {
	d := base.NewDenseInstances()
	c := base.NewCategoricalAttribute()
	c.SetName("class")
	for _, s := range l.labels {
		c.GetSysValFromString(s)
	}
	k := base.NewCategoricalAttribute()
	k.SetName("kind")
	for _, s := range []string{"x", "y", "z"} {
		k.GetSysValFromString(s)
	}
	if l.clsFirst {
		d.AddAttribute(c)
	}
	if l.cat && l.catFirst {
		d.AddAttribute(k)
	}
	for g := 0; g < l.groups; g++ {
		must(d.CreateAttributeGroup(fmt.Sprintf("G%d", g), 8))
	}
	fs := make([]base.Attribute, l.dim)
	for _, i := range l.order {
		fs[i] = base.NewFloatAttribute(fmt.Sprintf("f%d", i))
		if l.groups == 0 {
			d.AddAttribute(fs[i])
		} else {
			_, err := d.AddAttributeToAttributeGroup(fs[i], fmt.Sprintf("G%d", l.group[i]))
			must(err)
		}
	}
	if l.cat && !l.catFirst {
		d.AddAttribute(k)
	}
	if !l.clsFirst {
		d.AddAttribute(c)
	}
	must(d.AddClassAttribute(c))
	left := len(rows)
	for i := 0; i < l.chunks; i++ {
		d.Extend(left / l.chunks)
	}
	d.Extend(left % l.chunks)
	csp, err := d.GetAttribute(c)
	must(err)
	for r := range rows {
		for i := range fs {
			sp, err := d.GetAttribute(fs[i])
			must(err)
			d.Set(sp, r, base.PackFloatToBytes(math.Ldexp(float64(rows[r][i]+l.off), l.exp)))
		}
		d.Set(csp, r, base.PackU64ToBytes(uint64(cls[r]-1)))
		if l.cat {
			sp, err := d.GetAttribute(k)
			must(err)
			d.Set(sp, r, base.PackU64ToBytes(uint64(rng.Intn(3))))
		}
	}
	return d
}

// kPoints: many ties and duplicates.
func kPoints(rng *rand.Rand, n, dim, max int, nonzero, whole bool) [][]int {
	out := make([][]int, n)
	for r := range out {
		if r > 0 && rng.Intn(5) == 0 {
			out[r] = append([]int{}, out[rng.Intn(r)]...)
			continue
		}
		if whole {
			if dim == 2 {
				out[r] = whole2[rng.Intn(len(whole2))]
			} else {
				out[r] = whole3[rng.Intn(len(whole3))]
			}
			continue
		}
		for some := false; !some; {
			out[r] = make([]int, dim)
			for i := range out[r] {
				out[r][i] = rng.Intn(2*max+1) - max
				some = some || out[r][i] != 0 || !nonzero
			}
		}
	}
	return out
}

func init() {
	vh.Register("C16", func(c *vh.Ctx) {
		round := func(t *vh.T, m *knn.KNNClassifier, metric string, weighted bool, size string) {
			rng := t.Rng
			n := 1 + rng.Intn(10)
			if rng.Intn(6) == 0 {
				n = 20 + rng.Intn(20)
			}
			whole := weighted && metric == "cosine"
			dim := 1 + rng.Intn(4)
			max := 1 + rng.Intn(5)
			nl := 2 + rng.Intn(2)
			switch size {
			case "many":
				n = 260 + rng.Intn(200)
				nl = 2 + rng.Intn(40)
				if rng.Intn(2) == 0 && !weighted && metric != "cosine" {
					max = 1000 // hardly any ties
				}
			case "wide":
				if !weighted {
					dim = 20 + rng.Intn(60)
				}
			}
			if whole {
				dim = 2 + rng.Intn(2)
			}
			rows := kPoints(rng, n, dim, max, metric == "cosine", whole)
			l := layout{dim: dim, cat: rng.Intn(3) == 0, catFirst: rng.Intn(2) == 0, clsFirst: rng.Intn(2) == 0,
				chunks: 1 + rng.Intn(3), order: rng.Perm(dim)}
			for i := 0; i < nl; i++ {
				l.labels = append(l.labels, fmt.Sprintf("c%d", i+1))
			}
			switch rng.Intn(6) {
			case 0:
				l.exp = -(1 + rng.Intn(40))
			case 1:
				l.exp = 1 + rng.Intn(40)
			case 2:
				l.exp = []int{-200, -100, 100, 200}[rng.Intn(4)]
			}
			if metric != "cosine" && rng.Intn(4) == 0 {
				l.off = []int{1 << 12, -(1 << 20), 1 << 26}[rng.Intn(3)]
			}
			if rng.Intn(3) == 0 {
				l.groups = 1 + rng.Intn(3)
				for i := 0; i < dim; i++ {
					l.group = append(l.group, rng.Intn(l.groups))
				}
			}
			cls := make([]int, n)
			for i := range cls {
				cls[i] = 1 + rng.Intn(len(l.labels))
			}
			train := base.FixedDataGrid(l.grid(rng, rows, cls))
			if rng.Intn(4) == 0 { // a view of it, rows chosen
				sel := make([]int, 1+rng.Intn(n+1))
				r2, c2 := make([][]int, len(sel)), make([]int, len(sel))
				for i := range sel {
					sel[i] = rng.Intn(n)
					r2[i], c2[i] = rows[sel[i]], cls[sel[i]]
				}
				train = base.NewInstancesViewFromVisible(train, sel, train.AllAttributes())
				rows, cls, n = r2, c2, len(sel)
			}
			k := 1 + rng.Intn(n)
			switch rng.Intn(8) {
			case 0:
				k = n
			case 1:
				k = n + 1
			case 2:
				k = 1
			}
			m.NearestNeighbours = k
			must(m.Fit(train))
			t.Log(vh.Ev{"e": "Store", "rows": rows, "cls": cls, "exp": l.exp, "off": l.off})
			for s := 0; s < 3; s++ {
				q := rng.Intn(6)
				far := max
				if max < 5 {
					far = 5
				}
				if size == "many" && s > 0 {
					q = rng.Intn(2)
				}
				targets := kPoints(rng, q, dim, far, metric == "cosine", whole)
				qc := make([]int, q)
				for i := range qc {
					if rng.Intn(3) == 0 {
						targets[i] = rows[rng.Intn(n)]
					}
					qc[i] = 1 + rng.Intn(len(l.labels))
				}
				l2 := l
				l2.chunks = 1 + rng.Intn(3)
				what := rng.Intn(4)
				if what == 0 { // held in another way
					l2.order = rng.Perm(dim)
					l2.clsFirst = !l.clsFirst
				}
				test := base.FixedDataGrid(l2.grid(rng, targets, qc))
				if what == 1 && q > 0 {
					as := test.AllAttributes()
					var sub []base.Attribute
					for _, i := range rng.Perm(len(as)) {
						sub = append(sub, as[i])
					}
					sel := rng.Perm(q)
					t2 := make([][]int, q)
					for i := range sel {
						t2[i] = targets[sel[i]]
					}
					test, targets = base.NewInstancesViewFromVisible(test, sel, sub), t2
				}
				p, err := m.Predict(test)
				out, got := "ok", make([]int, 0)
				if err != nil {
					out = "err"
				} else {
					_, pn := p.Size()
					for i := 0; i < pn; i++ {
						got = append(got, index(l.labels, base.GetClass(p, i)))
					}
				}
				if targets == nil {
					targets = [][]int{}
				}
				t.Log(vh.Ev{"e": "Predict", "m": metric, "k": k, "targets": targets, "weighted": weighted, "out": out, "got": got})
			}
		}
		run := func(metric, algo string, opt, weighted bool, size string) func(t *vh.T) {
			return func(t *vh.T) {
				m := knn.NewKnnClassifier(metric, algo, 1)
				m.AllowOptimisations, m.Weighted = opt, weighted
				round(t, m, metric, weighted, size)
				if size == "" && t.Rng.Intn(5) == 0 {
					round(t, m, metric, weighted, size) // fitted again on other data
				}
			}
		}
		for _, metric := range []string{"euclidean", "manhattan", "cosine"} {
			for _, algo := range []string{"linear", "kdtree"} {
				for _, opt := range []bool{false, true} {
					for _, weighted := range []bool{false, true} {
						num := c.N(40, 700)
						if metric == "euclidean" && opt && algo == "linear" && !weighted {
							num *= 3
						}
						name := fmt.Sprintf("%s-%s-opt%v-weighted%v", metric, algo, opt, weighted)
						for i := 0; i < num; i++ {
							c.Case(name, run(metric, algo, opt, weighted, ""))
						}
						for i := 0; i < num/40; i++ {
							c.Case("many-"+name, run(metric, algo, opt, weighted, "many"))
							c.Case("wide-"+name, run(metric, algo, opt, weighted, "wide"))
						}
					}
				}
			}
		}
		for i := 0; i < 4; i++ {
			c.Canary("got", run("euclidean", "linear", i%2 == 0, false, ""), func(evs []vh.Ev) []vh.Ev {
				for _, e := range evs {
					if l, ok := e["got"].([]interface{}); ok && len(l) > 0 {
						l[0] = 9.0
						return evs
					}
				}
				return nil
			})
		}
	})
}

// index of a label, from 1; 0 when there is none.
func index(labels []string, s string) int {
	for i, l := range labels {
		if l == s {
			return i + 1
		}
	}
	return 0
}
