package main

import (
	"path/filepath"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/trees"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// moreKinds are further models for saving and loading.
var moreKinds = []kind{
	{"knn-vote", shape{floats: 3, classes: two, wide: true}, func(s int64) *model {
		c := knn.NewKnnClassifier("euclidean", []string{"linear", "kdtree"}[s&1], 3)
		c.Weighted = s&2 == 0
		return wrap(c)
	}},
	{"knn-mixed", shape{floats: 2, cats: 1, classes: three, wide: true}, func(s int64) *model {
		return wrap(knn.NewKnnClassifier("manhattan", "linear", 1))
	}},
	{"id3-gini", shape{cats: 4, classes: two}, func(s int64) *model {
		return wrap(trees.NewID3DecisionTreeFromRule(0, &trees.GiniCoefficientRuleGenerator{}))
	}},
	{"id3-pruned", shape{cats: 3, classes: two}, func(s int64) *model { return wrap(trees.NewID3DecisionTree(0.6)) }},
	{"id3-bins", shape{bins: 3, cats: 1, classes: two}, func(s int64) *model { return wrap(trees.NewID3DecisionTree(0)) }},
	{"random-tree-cat", shape{cats: 3, classes: three}, func(s int64) *model { return wrap(trees.NewRandomTree(2)) }},
	{"bagged-knn", shape{floats: 3, classes: two, wide: true}, func(s int64) *model {
		b := &meta.BaggedModel{RandomFeatures: 2}
		for i := 0; i < 3; i++ {
			b.AddModel(knn.NewKnnClassifier("euclidean", "linear", 1))
		}
		return &model{b.Fit, b.Predict, b.Save, b.Load}
	}},
	{"bagged-all", shape{cats: 3, classes: two}, func(s int64) *model {
		b := &meta.BaggedModel{}
		for i := 0; i < 5; i++ {
			b.AddModel(trees.NewRandomTree(2))
		}
		return &model{b.Fit, b.Predict, b.Save, b.Load}
	}},
	{"svc-unbiased", shape{floats: 3, classes: two, floatClass: true}, func(s int64) *model {
		c, err := linear_models.NewLinearSVC("l1", "l2", true, 0.5, 1e-4)
		must(err)
		return wrap(c)
	}},
	{"multi-svc-weights", shape{floats: 2, classes: three, fixed: true}, func(s int64) *model {
		return wrap(ensemble.NewMultiLinearSVC("l2", "l2", true, 1.0, 1e-4, map[string]float64{"red": 1, "green": 2, "blue": 1}))
	}},
	{"forest-many", shape{floats: 3, classes: two}, func(s int64) *model { return wrap(ensemble.NewRandomForest(25, 3)) }},
	{"bagged-many", shape{cats: 2, floats: 2, classes: two}, func(s int64) *model {
		b := &meta.BaggedModel{RandomFeatures: 3}
		for i := 0; i < 13; i++ {
			b.AddModel(trees.NewID3DecisionTree(0))
		}
		return &model{b.Fit, b.Predict, b.Save, b.Load}
	}},
	{"one-vs-all-logit", shape{floats: 3, classes: three}, func(s int64) *model {
		m := meta.NewOneVsAllModel(func(string) base.Classifier {
			c, err := linear_models.NewLinearSVC("l2", "l2", false, 2.0, 1e-3)
			must(err)
			return c
		})
		return &model{m.Fit, m.Predict, m.Save, m.Load}
	}},
	{"svc-weights", shape{floats: 2, classes: two, floatClass: true}, func(s int64) *model {
		p := &linear_models.LinearSVCParams{ClassWeights: []float64{2, 0.25}, C: 0.5, Eps: 1e-4, WeightClassesAutomatically: s&1 == 0, Dual: true}
		must(p.SetKindFromStrings("l2", "l2"))
		c, err := linear_models.NewLinearSVCFromParams(p)
		must(err)
		return wrap(c)
	}},
}

func init() {
	vh.Register("C28", func(c *vh.Ctx) {
		all := append(append([]kind{}, kinds...), moreKinds...)
		for i := 0; i < c.N(25, 300); i++ {
			for j := range all {
				k := all[j]
				c.Case(k.name, func(t *vh.T) { saveAndLoad(t, k) })
			}
		}
		for _, what := range []string{"changed", "still"} {
			what := what
			c.Canary(what, func(t *vh.T) { saveAndLoad(t, kinds[1]) }, func(evs []vh.Ev) []vh.Ev {
				for _, e := range evs {
					if e["e"] == "Loads" && what == "changed" {
						p := e["outs"].([]interface{})[0].([]interface{})[0].([]interface{})
						p[0] = "other"
					}
					if e["e"] == "Still" && what == "still" {
						p := e["content"].([]interface{})[0].([]interface{})
						p[len(p)-1] = "other"
					}
				}
				return evs
			})
		}
	})
}

func saveAndLoad(t *vh.T, k kind) {
	seed := t.Rng.Int63()
	other := k.shape.vary(t.Rng)
	k.shape = k.shape.vary(t.Rng)
	rows := len(k.shape.classes)*4 + t.Rng.Intn(25)
	if t.Rng.Intn(8) == 0 {
		rows = 257 + t.Rng.Intn(200)
	}
	train := k.shape.grid(t.Rng, rows, t.Rng.Intn(4) > 0)
	var tests []base.FixedDataGrid
	for i := 0; i < 3; i++ {
		tests = append(tests, k.shape.grid(t.Rng, []int{1, 1 + t.Rng.Intn(15), 15, 260}[t.Rng.Intn(4)], t.Rng.Intn(2) == 0))
	}
	tests = append(tests, train)
	ask := func(m *model) [][]string {
		out := [][]string{}
		for _, g := range tests {
			p, err := m.predict(g)
			must(err)
			out = append(out, labels(p))
		}
		return out
	}
	m := k.make(seed)
	if t.Rng.Intn(4) == 0 { // not the first training
		m.fit(k.shape.grid(t.Rng, 20+t.Rng.Intn(20), true))
	}
	m.fit(train)
	before := ask(m)
	p := filepath.Join(t.Dir, "model")
	t.Log(vh.Ev{"e": "Save", "ok": m.save(p) == nil, "kind": "model", "content": before})
	t.Log(vh.Ev{"e": "Still", "content": ask(m)})
	load := func(n *model, p string) {
		s := &sweep{}
		var out interface{}
		s.add(vh.TryErr(func() error {
			if err := n.load(p); err != nil {
				return err
			}
			out = ask(n)
			return nil
		}), out)
		s.log(t, "reload")
		t.Note("failed", vh.LastPanic)
	}
	// into a fresh model
	n := k.make(seed)
	load(n, p)
	// once more, from a file the reloaded model has written over a longer one
	q := filepath.Join(t.Dir, "again")
	if t.Rng.Intn(2) == 0 {
		must(m.save(q))
	}
	t.Log(vh.Ev{"e": "Save", "ok": n.save(q) == nil, "kind": "model", "content": before})
	t.Log(vh.Ev{"e": "Still", "content": ask(n)})
	o := k.make(seed + int64(t.Rng.Intn(3))) // perhaps with other settings
	switch t.Rng.Intn(3) {
	case 0: // a model trained on something else
		o.fit(k.shape.grid(t.Rng, 20, true))
	case 1: // or on data which look different
		o.fit(other.grid(t.Rng, len(other.classes)*4+20, true))
	}
	load(o, q)
}
