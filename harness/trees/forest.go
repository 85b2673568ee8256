package main

import (
	"runtime"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/trees"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// loadClasses records the data and how many classes there are.
func (d *data) loadClasses(t *vh.T) {
	t.Log(vh.Ev{"e": "Data", "typ": d.kinds, "rows": d.rows, "cls": d.target, "classes": len(d.labels)})
}

func (d *data) forest(f *ensemble.RandomForest) [][]vh.Ev {
	out := make([][]vh.Ev, 0)
	for _, m := range f.Model.Models {
		switch x := m.(type) {
		case *trees.ID3DecisionTree:
			out = append(out, d.tree(x.Root))
		case *trees.RandomTree:
			out = append(out, d.tree(x.Root))
		}
	}
	return out
}

// telling is a data set in which each feature alone gives the class away.
func telling(feats, n int) *data {
	d := &data{mult: 1, off: make([]int, feats), exp: make([]int, feats)}
	g := base.NewDenseInstances()
	for i := 0; i < feats; i++ {
		a := base.NewFloatAttribute(string(rune('p' + i)))
		g.AddAttribute(a)
		d.attrs, d.kinds = append(d.attrs, a), append(d.kinds, "num")
	}
	c := base.NewCategoricalAttribute()
	c.SetName("class")
	d.labels = []string{"yes", "no"}
	for _, l := range d.labels {
		c.GetSysValFromString(l)
	}
	d.cls = c
	g.AddAttribute(c)
	must(g.AddClassAttribute(c))
	g.Extend(n)
	csp, err := g.GetAttribute(c)
	must(err)
	for r := 0; r < n; r++ {
		row := make([]int, feats)
		for i, a := range d.attrs {
			sp, err := g.GetAttribute(a)
			must(err)
			row[i] = (r % 2) * (i + 1)
			g.Set(sp, r, base.PackFloatToBytes(float64(row[i])))
		}
		g.Set(csp, r, base.PackU64ToBytes(uint64(r%2)))
		d.rows, d.target = append(d.rows, row), append(d.target, r%2+1)
	}
	d.grid = g
	return d
}

func init() {
	vh.Register("C26", func(c *vh.Ctx) {
		foresting := func(t *vh.T, n int) {
			rng := t.Rng
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1 + rng.Intn(8)))
			sh := anyShape(rng)
			sh.mult = 0
			train, test := newShaped(rng, n+rng.Intn(8), anyWidth(rng, 5), sh).divide(rng, n, rng.Intn(8))
			train.loadClasses(t)
			size, features := 1+rng.Intn(7), 1+rng.Intn(len(train.attrs)+1)
			if rng.Intn(10) == 0 {
				size = 10 + rng.Intn(20)
			}
			f := ensemble.NewRandomForest(size, features)
			for round := 0; round < 1+rng.Intn(2); round++ {
				if round > 0 && n > 2 && rng.Intn(2) == 0 { // again, with other rows
					train, _ = train.divide(rng, 1+rng.Intn(n-1), 0)
					train.loadClasses(t)
				}
				if err := f.Fit(train.grid); err != nil {
					t.Log(vh.Ev{"e": "Refused", "features": features})
					return
				}
				t.Log(vh.Ev{"e": "Forest", "size": size, "features": features, "trees": train.forest(f), "wide": false})
				for _, g := range []*data{train, test} {
					p, err := f.Predict(g.grid)
					must(err)
					t.Log(vh.Ev{"e": "Predict", "rows": g.rows, "got": g.classes(p)})
				}
			}
		}
		forest := func(t *vh.T) { foresting(t, 1+t.Rng.Intn(14)) }
		wide := func(t *vh.T) {
			d := telling(2+t.Rng.Intn(2), 8)
			d.loadClasses(t)
			f := ensemble.NewRandomForest(90, 1)
			must(f.Fit(d.grid))
			t.Log(vh.Ev{"e": "Forest", "size": 90, "features": 1, "trees": d.forest(f), "wide": true})
		}
		for i := 0; i < c.N(500, 8000); i++ {
			c.Case("forest", forest)
		}
		for i := 0; i < c.N(6, 100); i++ {
			c.Case("many", func(t *vh.T) { foresting(t, 257+t.Rng.Intn(60)) })
		}
		for i := 0; i < c.N(16, 160); i++ {
			c.Case("wide", wide)
		}
		for i := 0; i < 4; i++ {
			k := i % 2
			c.Canary("log", func(t *vh.T) {
				d := telling(2, 8)
				d.loadClasses(t)
				f := ensemble.NewRandomForest(5, 2)
				must(f.Fit(d.grid))
				t.Log(vh.Ev{"e": "Forest", "size": 5, "features": 2, "trees": d.forest(f), "wide": false})
				p, err := f.Predict(d.grid)
				must(err)
				t.Log(vh.Ev{"e": "Predict", "rows": d.rows, "got": d.classes(p)})
			}, func(evs []vh.Ev) []vh.Ev {
				if k == 0 {
					evs[1]["size"] = 6
				} else {
					evs[2]["got"].([]interface{})[0] = 3.0
				}
				return evs
			})
		}
	})
}
