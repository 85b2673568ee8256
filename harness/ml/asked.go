package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/kdtree"
	"github.com/sjwhitworth/golearn/pca"
	"github.com/sjwhitworth/golearn/trees"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
	"gonum.org/v1/gonum/mat"
)

// asker is something that learns from a data set and is asked about others.
type asker struct {
	fit  func(base.FixedDataGrid)
	ask  func(base.FixedDataGrid) string
	save func(string) error
	load func(string) error
}

type askedKind struct {
	name  string
	shape shape
	sure  bool // fitting leaves nothing to chance
	make  func(seed int64) *asker
}

func asked(k kind) askedKind {
	switch k.name { // many of which take long to train
	case "multi-svc", "one-vs-all", "one-vs-all-logit":
		k.shape.fixed = true
	}
	sure := map[string]bool{"knn": true, "knn-cosine": true, "knn-mixed": true, "bayes": true, "linear-regression": true, "bagged-knn": false}
	return askedKind{k.name, k.shape, sure[k.name], func(s int64) *asker {
		m := k.make(s)
		return &asker{m.fit, func(g base.FixedDataGrid) string {
			p, err := m.predict(g)
			must(err)
			return strings.Join(labels(p), " ")
		}, m.save, m.load}
	}}
}

func floatText(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }

// filtered asks a filter for all cells of a data set.
func filtered(build func(base.FixedDataGrid) base.Filter) func(int64) *asker {
	return func(int64) *asker {
		var f base.Filter
		return &asker{fit: func(g base.FixedDataGrid) {
			f = build(g)
			for _, a := range features(g) {
				must(f.AddAttribute(a))
			}
			must(f.Train())
		}, ask: func(g base.FixedDataGrid) string {
			l := base.NewLazilyFilteredInstances(g, f)
			out := f.String()
			_, n := l.Size()
			for _, a := range l.AllAttributes() {
				sp, err := l.GetAttribute(a)
				must(err)
				for r := 0; r < n; r++ {
					out += " " + a.GetStringFromSysVal(l.Get(sp, r))
				}
			}
			return out
		}}
	}
}

// features are the attributes but the class, in the order of the data set.
func features(g base.FixedDataGrid) []base.Attribute {
	var out []base.Attribute
	for _, a := range g.AllAttributes() {
		if a.GetName() != "class" {
			out = append(out, a)
		}
	}
	return out
}

func matrixOf(g base.FixedDataGrid) *mat.Dense {
	sps := base.ResolveAttributes(g, features(g))
	_, n := g.Size()
	x := mat.NewDense(n, len(sps), nil)
	for r := 0; r < n; r++ {
		for j, sp := range sps {
			x.Set(r, j, base.UnpackBytesToFloat(g.Get(sp, r)))
		}
	}
	return x
}

var otherAskers = []askedKind{
	{"cart", shape{floats: 3, classes: two, floatClass: true, fixed: true}, true, func(s int64) *asker {
		m := trees.NewDecisionTreeClassifier([]string{"gini", "entropy"}[s&1], -1, []int64{0, 1})
		return &asker{fit: func(g base.FixedDataGrid) { must(m.Fit(g)) }, ask: func(g base.FixedDataGrid) string {
			return fmt.Sprint(m.Predict(g)) + m.String()
		}}
	}},
	{"cart-regressor", shape{floats: 3, classes: three, floatClass: true, fixed: true}, true, func(s int64) *asker {
		m := trees.NewDecisionTreeRegressor([]string{"mae", "mse"}[s&1], -1)
		return &asker{fit: func(g base.FixedDataGrid) { must(m.Fit(g)) }, ask: func(g base.FixedDataGrid) string {
			return fmt.Sprint(m.Predict(g)) + m.String()
		}}
	}},
	{"pca", shape{floats: 4, classes: two}, true, func(s int64) *asker {
		m := pca.NewPCA(2)
		return &asker{fit: func(g base.FixedDataGrid) { m.Fit(matrixOf(g)) }, ask: func(g base.FixedDataGrid) string {
			out := ""
			for _, v := range m.Transform(matrixOf(g)).RawMatrix().Data {
				out += floatText(v) + " "
			}
			return out
		}}
	}},
	{"kdtree", shape{floats: 3, classes: two, wide: true}, true, func(s int64) *asker {
		m := kdtree.New()
		return &asker{fit: func(g base.FixedDataGrid) { must(m.Build(rowsOf(g))) }, ask: func(g base.FixedDataGrid) string {
			out := ""
			for _, x := range rowsOf(g) {
				rows, dist, err := m.Search(3, euclid{}, x)
				must(err)
				out += fmt.Sprint(rows, dist)
			}
			return out
		}}
	}},
	{"binning", shape{floats: 3, cats: 1, classes: two}, true, filtered(func(g base.FixedDataGrid) base.Filter {
		return &someFloats{filters.NewBinningFilter(g, 4)}
	})},
	{"chimerge", shape{floats: 2, classes: two}, false, filtered(func(g base.FixedDataGrid) base.Filter {
		return filters.NewChiMergeFilter(g, 0.9)
	})},
	{"to-binary", shape{cats: 3, bins: 2, classes: two}, true, filtered(func(g base.FixedDataGrid) base.Filter {
		return filters.NewBinaryConvertFilter()
	})},
	{"to-float", shape{cats: 2, bins: 2, floats: 1, classes: three}, true, filtered(func(g base.FixedDataGrid) base.Filter {
		return filters.NewFloatConvertFilter()
	})},
}

// someFloats leaves other attributes than numbers alone.
type someFloats struct{ base.Filter }

func (f *someFloats) AddAttribute(a base.Attribute) error {
	if _, ok := a.(*base.FloatAttribute); !ok {
		return nil
	}
	return f.Filter.AddAttribute(a)
}

func rowsOf(g base.FixedDataGrid) [][]float64 {
	x := matrixOf(g)
	n, _ := x.Dims()
	out := make([][]float64, n)
	for r := range out {
		out[r] = append([]float64{}, x.RawRowView(r)...)
	}
	return out
}

type euclid struct{}

func (euclid) Distance(a, b *mat.Dense) float64 {
	var d mat.Dense
	d.Sub(a, b)
	return mat.Norm(&d, 2)
}

// short names a long answer by its beginning and its hash.
func short(s string) string {
	if len(s) <= 120 {
		return s
	}
	return fmt.Sprintf("%.60s... %x", s, sha256.Sum256([]byte(s)))
}

type work struct {
	Op   string `json:"op"`
	M, X int
}

func quietly(f func()) (what string) {
	defer func() {
		if r := recover(); r != nil {
			what = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

func askTogether(raw json.RawMessage, k askedKind) func(t *vh.T) {
	return func(t *vh.T) {
		var rounds [][]work
		must(json.Unmarshal(raw, &rounds))
		seed := t.Rng.Int63()
		sh := k.shape.vary(t.Rng)
		if strings.HasPrefix(k.name, "to-") && sh.values > 12 { // a column each
			sh.values = 12
		}
		datas := make([]base.FixedDataGrid, 2)
		for i := range datas {
			datas[i] = sh.grid(t.Rng, len(sh.classes)*3+12+t.Rng.Intn(20), true)
		}
		queries := make([]base.FixedDataGrid, 3)
		for i := range queries {
			queries[i] = sh.grid(t.Rng, len(sh.classes)+1+t.Rng.Intn(30), false)
		}
		answers := func(a *asker) []string {
			out := make([]string, len(queries))
			for i := range queries {
				out[i] = short(a.ask(queries[i]))
			}
			return out
		}
		head := vh.Ev{"e": "Kind", "sure": k.sure}
		if k.sure {
			alone := make([][]string, len(datas))
			for i := range datas {
				a := k.make(seed)
				a.fit(datas[i])
				alone[i] = answers(a)
			}
			head["alone"] = alone
		}
		t.Log(head)
		models, later := map[int]*asker{}, map[int]bool{}
		for n, round := range rounds {
			if len(round) == 0 {
				continue
			}
			out := make([]vh.Ev, len(round))
			fits := map[int]*asker{}
			for _, w := range round {
				if w.Op == "Fit" {
					fits[w.M] = k.make(seed)
				}
			}
			gate := make(chan bool)
			var wg sync.WaitGroup
			for i := range round {
				wg.Add(1)
				spin, m, f := t.Rng.Intn(1000), models[round[i].M], fits[round[i].M]
				go func(i int) {
					defer wg.Done()
					w := round[i]
					e := vh.Ev{"op": w.Op, "m": w.M, "x": w.X, "got": ""}
					<-gate
					for j := 0; j < spin; j++ {
						if j%400 == 399 {
							runtime.Gosched()
						}
					}
					e["ok"] = "" == quietly(func() {
						switch {
						case w.Op == "Fit":
							f.fit(datas[w.X-1])
						case w.Op == "Save" && m.save != nil:
							p := filepath.Join(t.Dir, fmt.Sprintf("m%d-%d", n, i))
							must(m.save(p))
							fresh := k.make(seed)
							must(fresh.load(p))
							e["got"] = short(fresh.ask(queries[w.X-1]))
						default:
							e["got"] = short(m.ask(queries[w.X-1]))
						}
					})
					out[i] = e
				}(i)
			}
			close(gate)
			wg.Wait()
			t.Log(vh.Ev{"e": "Round", "work": out})
			for m, f := range fits {
				models[m] = f
			}
			// A model that has just been fitted is asked alone, or only after others have asked it.
			for m := 1; m <= 3; m++ {
				for _, w := range round {
					if w.M == m && w.Op != "Fit" && later[m] {
						t.Log(vh.Ev{"e": "Alone", "m": m, "answers": answers(models[m])})
						later[m] = false
					}
				}
				if fits[m] != nil {
					later[m] = t.Rng.Intn(2) == 0
				}
				if !later[m] && (fits[m] != nil || (models[m] != nil && t.Rng.Intn(4) == 0)) {
					t.Log(vh.Ev{"e": "Alone", "m": m, "answers": answers(models[m])})
				}
			}
		}
	}
}

func init() {
	vh.Register("C51", func(c *vh.Ctx) {
		var all []askedKind
		for _, ks := range [][]kind{kinds, moreKinds, answerKinds} {
			for _, k := range ks {
				all = append(all, asked(k))
			}
		}
		all = append(all, otherAskers...)
		sc := c.Scenarios("asked")
		for i, raw := range sc {
			k := all[i%len(all)]
			c.Case(k.name, askTogether(raw, k))
		}
		for i := 0; i < 2 && i < len(sc); i++ {
			for _, what := range []string{"answer", "ok"} {
				what := what
				c.Canary(what, askTogether(sc[i], all[i]), func(evs []vh.Ev) []vh.Ev {
					for _, e := range evs {
						if e["e"] == "Round" {
							for _, w := range e["work"].([]interface{}) {
								w := w.(map[string]interface{})
								if what == "ok" {
									w["ok"] = false
									return evs
								}
								if w["op"] != "Fit" {
									w["got"] = w["got"].(string) + "."
									return evs
								}
							}
						}
					}
					return evs
				})
			}
		}
	})
}
