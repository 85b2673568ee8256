package main

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/naive"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type docs struct {
	feats  []*base.BinaryAttribute
	class  base.Attribute
	labels []string
}

type doc struct {
	F []int  `json:"f"`
	C string `json:"c"`
}

// grid puts the rows in a grid whose columns come in the order of perm (class last in the list).
func (d *docs) grid(rows []doc, perm []int) base.FixedDataGrid {
	g := base.NewDenseInstances()
	for _, k := range perm {
		if k == len(d.feats) {
			g.AddAttribute(d.class)
		} else {
			g.AddAttribute(d.feats[k])
		}
	}
	must(g.AddClassAttribute(d.class))
	must(g.Extend(len(rows)))
	csp, err := g.GetAttribute(d.class)
	must(err)
	for r := range rows {
		for j, a := range d.feats {
			sp, err := g.GetAttribute(a)
			must(err)
			g.Set(sp, r, []byte{byte(rows[r].F[j])})
		}
		g.Set(csp, r, d.class.GetSysValFromString(rows[r].C))
	}
	return g
}

func bayes(t *vh.T, maxF, maxN int) {
	d := &docs{}
	f := 1 + t.Rng.Intn(maxF)
	for i := 0; i < f; i++ {
		d.feats = append(d.feats, base.NewBinaryAttribute(fmt.Sprintf("b%d", i)))
	}
	if t.Rng.Intn(6) == 0 {
		d.class = base.NewBinaryAttribute("class")
		d.labels = []string{"0", "1"}
	} else {
		a := base.NewCategoricalAttribute()
		a.SetName("class")
		for _, l := range []string{"red", "green", "blue", "amber"}[:2+t.Rng.Intn(3)] {
			a.GetSysValFromString(l)
			d.labels = append(d.labels, l)
		}
		d.class = a
	}
	perm := t.Rng.Perm(f + 1)
	m := naive.NewBernoulliNBClassifier()
	for round := 0; round < 1+t.Rng.Intn(3); round++ {
		used := d.labels
		if t.Rng.Intn(3) == 0 {
			used = used[t.Rng.Intn(2):]
		}
		var rows []doc
		counts := map[string]int{}
		dense := t.Rng.Intn(4) // how often features are present
		for len(rows) < 1+t.Rng.Intn(2*maxN) {
			r := doc{C: used[t.Rng.Intn(len(used))]}
			if counts[r.C] == maxN {
				break
			}
			counts[r.C]++
			for j := 0; j < f; j++ {
				v := 0
				if t.Rng.Intn(4) < dense+1-(j%2) {
					v = 1
				}
				r.F = append(r.F, v)
			}
			rows = append(rows, r)
		}
		g := d.grid(rows, perm)
		t.Log(vh.Ev{"e": "Fit", "ok": m.Fit(g) == nil, "rows": rows})
		if t.Rng.Intn(4) == 0 {
			bad := base.NewDenseInstances()
			bad.AddAttribute(base.NewBinaryAttribute("x"))
			if t.Rng.Intn(2) == 0 { // a feature which is a number
				bad.AddAttribute(base.NewFloatAttribute("y"))
				bad.AddAttribute(d.class)
				must(bad.AddClassAttribute(d.class))
			} else if t.Rng.Intn(2) == 0 { // two classes
				o := base.NewBinaryAttribute("other")
				bad.AddAttribute(o)
				bad.AddAttribute(d.class)
				must(bad.AddClassAttribute(d.class))
				must(bad.AddClassAttribute(o))
			}
			must(bad.Extend(2))
			t.Log(vh.Ev{"e": "Refuse", "ok": m.Fit(bad) == nil})
		}
		// every row there can be, in one batch, in another order of columns, and one at a time
		var all []doc
		var fs [][]int
		for k := 0; k < 1<<uint(f); k++ {
			r := doc{C: d.labels[t.Rng.Intn(len(d.labels))]}
			for j := 0; j < f; j++ {
				r.F = append(r.F, (k>>uint(j))&1)
			}
			all = append(all, r)
			fs = append(fs, r.F)
		}
		qperm := perm
		if t.Rng.Intn(2) == 0 {
			qperm = t.Rng.Perm(f + 1)
		}
		out, err := m.Predict(d.grid(all, qperm))
		must(err)
		var ans []string
		for r := range all {
			ans = append(ans, base.GetClass(out, r))
		}
		t.Log(vh.Ev{"e": "Predict", "rows": fs, "answers": ans})
		ans = nil
		for _, r := range all {
			var v [][]byte
			for _, k := range perm {
				if k < f {
					x := byte(r.F[k])
					if x == 1 && t.Rng.Intn(4) == 0 {
						x = 7
					}
					v = append(v, []byte{x})
				}
			}
			ans = append(ans, m.PredictOne(v))
		}
		t.Log(vh.Ev{"e": "Predict", "rows": fs, "answers": ans})
	}
}

// bulky is a model of many features, nearly all of which weigh the same in every class, or of many rows with one feature.
func bulky(t *vh.T) {
	d := &docs{}
	rng := t.Rng
	tell, size, plain := 1+rng.Intn(2), 1+rng.Intn(6), 0
	classes := 2 + rng.Intn(2)
	if rng.Intn(2) == 0 {
		tell, size = 1, 200+rng.Intn(300)
	} else {
		plain = 250 + rng.Intn(900)
	}
	for i := 0; i < tell+plain; i++ {
		d.feats = append(d.feats, base.NewBinaryAttribute(fmt.Sprintf("b%d", i)))
	}
	a := base.NewCategoricalAttribute()
	a.SetName("class")
	for _, l := range []string{"red", "green", "blue"}[:classes] {
		a.GetSysValFromString(l)
		d.labels = append(d.labels, l)
	}
	d.class = a
	var rows []doc
	for _, l := range d.labels {
		often := rng.Intn(101)
		for i := 0; i < size; i++ {
			r := doc{C: l, F: make([]int, tell+plain)}
			for j := 0; j < tell; j++ {
				if rng.Intn(100) < often {
					r.F[j] = 1
				}
			}
			for j := tell; j < tell+plain; j++ { // the same rows of every class have it
				if j%7 > 3 && i%(2+j%3) == 0 {
					r.F[j] = 1
				}
			}
			rows = append(rows, r)
		}
	}
	rng.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	m := naive.NewBernoulliNBClassifier()
	perm := rng.Perm(tell + plain + 1)
	t.Log(vh.Ev{"e": "Fit", "ok": m.Fit(d.grid(rows, perm)) == nil, "rows": rows})
	var all []doc
	var fs [][]int
	for k := 0; k < 6; k++ {
		r := doc{C: d.labels[0], F: make([]int, tell+plain)}
		dense := []int{0, 50, 100}[rng.Intn(3)]
		for j := range r.F {
			if rng.Intn(100) < dense || (j < tell && rng.Intn(2) == 0) {
				r.F[j] = 1
			}
		}
		all = append(all, r)
		fs = append(fs, r.F)
	}
	out, err := m.Predict(d.grid(all, perm))
	must(err)
	var ans []string
	for r := range all {
		ans = append(ans, base.GetClass(out, r))
	}
	t.Log(vh.Ev{"e": "Predict", "rows": fs, "answers": ans})
}

func init() {
	vh.Register("C42", func(c *vh.Ctx) {
		// the sizes keep the fractions within the specification's whole numbers
		for _, s := range []struct{ f, n, quick, thorough int }{{2, 30, 80, 1500}, {3, 15, 80, 1500}, {4, 8, 120, 2500}, {6, 4, 80, 1500}} {
			s := s
			for i := 0; i < c.N(s.quick, s.thorough); i++ {
				c.Case(fmt.Sprintf("features%d", s.f), func(t *vh.T) { bayes(t, s.f, s.n) })
			}
		}
		for i := 0; i < c.N(12, 150); i++ {
			c.Case("bulky", bulky)
		}
		for i := 0; i < 4; i++ {
			i := i
			c.Canary("answer", func(t *vh.T) { bayes(t, 4, 8) }, func(evs []vh.Ev) []vh.Ev {
				if i%2 == 0 {
					evs[len(evs)-1]["answers"].([]interface{})[0] = "never"
				} else {
					a := evs[len(evs)-1]["answers"].([]interface{})
					evs[len(evs)-1]["answers"] = a[1:]
				}
				return evs
			})
		}
	})
}
