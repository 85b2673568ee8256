package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/perceptron"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// twoClass is a layout of numeric features, a class of two labels and other columns.
type twoClass struct {
	feats  int
	binary bool
	first  string
	names  []string // in order: f0.. features, class, other columns
}

func newTwoClass(rng *rand.Rand, feats int) twoClass {
	s := twoClass{feats: feats, binary: rng.Intn(4) == 0}
	for i := 0; i < feats; i++ {
		s.names = append(s.names, fmt.Sprintf("f%d", i))
	}
	s.names = append(s.names, "class")
	if rng.Intn(3) == 0 {
		s.names = append(s.names, "other")
	}
	rng.Shuffle(len(s.names), func(i, j int) { s.names[i], s.names[j] = s.names[j], s.names[i] })
	return s
}

// grid holds the rows; labels are 0 or 1, and nil stands for all 0. Equal attributes are made anew.
func (s twoClass) grid(rows [][]float64, labels []int) base.FixedDataGrid {
	g := base.NewDenseInstances()
	specs := map[string]base.AttributeSpec{}
	for _, n := range s.names {
		var a base.Attribute
		switch {
		case n == "class" && s.binary:
			a = base.NewBinaryAttribute(n)
		case n == "class" || n == "other":
			k := base.NewCategoricalAttribute()
			k.SetName(n)
			k.GetSysValFromString("no")
			k.GetSysValFromString("yes")
			a = k
		default:
			a = base.NewFloatAttribute(n)
		}
		specs[n] = g.AddAttribute(a)
		if n == "class" {
			must(g.AddClassAttribute(a))
		}
	}
	must(g.Extend(len(rows)))
	for r, row := range rows {
		for i, v := range row {
			g.Set(specs[fmt.Sprintf("f%d", i)], r, base.PackFloatToBytes(v))
		}
		if labels != nil && labels[r] == 1 {
			if s.binary {
				g.Set(specs["class"], r, []byte{1})
			} else {
				g.Set(specs["class"], r, base.PackU64ToBytes(1))
			}
		}
	}
	return g
}

// answers are the predicted labels, -1 for anything else.
func answers(p base.FixedDataGrid) []int {
	_, n := p.Size()
	out := make([]int, n)
	for r := range out {
		switch base.GetClass(p, r) {
		case "no", "0":
			out[r] = 0
		case "yes", "1":
			out[r] = 1
		default:
			out[r] = -1
		}
	}
	return out
}

func floats(rows [][]int) [][]float64 {
	out := make([][]float64, len(rows))
	for i, r := range rows {
		for _, v := range r {
			out[i] = append(out[i], float64(v))
		}
	}
	return out
}

func smallRows(rng *rand.Rand, n, feats int) [][]int {
	rows := make([][]int, n)
	for i := range rows {
		for j := 0; j < feats; j++ {
			rows[i] = append(rows[i], rng.Intn(13)-6)
		}
	}
	return rows
}

// probe finds where on each axis the label turns to the second, going out from 0.
func probe(feats int, ask func(rows [][]float64) []int) []int {
	w := make([]int, feats)
	type side struct {
		axis   int
		lo, hi float64
	}
	var open []side
	var far [][]float64
	for i := 0; i < feats; i++ {
		for _, s := range []float64{1, -1} {
			row := make([]float64, feats)
			row[i] = s * 1e7
			far = append(far, row)
		}
	}
	for k, l := range ask(far) {
		if l == 1 {
			open = append(open, side{k / 2, 0, far[k][k/2]})
		}
	}
	if len(open) == 0 {
		return w
	}
	for step := 0; step < 90; step++ {
		var rows [][]float64
		for _, s := range open {
			row := make([]float64, feats)
			row[s.axis] = (s.lo + s.hi) / 2
			rows = append(rows, row)
		}
		for k, l := range ask(rows) {
			if l == 1 {
				open[k].hi = rows[k][open[k].axis]
			} else {
				open[k].lo = rows[k][open[k].axis]
			}
		}
	}
	for _, s := range open {
		w[s.axis] = vh.Scaled(1/s.hi, 1e5)
	}
	return w
}

func perceive(t *vh.T) { perceiveSize(t, 1+t.Rng.Intn(4), 2+t.Rng.Intn(12), 10) }

func perceiveSize(t *vh.T, feats, train, asked int) {
	rng := t.Rng
	s := newTwoClass(rng, feats)
	p := perceptron.NewAveragePerceptron(s.feats, []float64{0.1, 0.5, 1.2}[rng.Intn(3)], []float64{0.25, 0.5, 1}[rng.Intn(3)], 0.3)
	perceiveOn(t, s, p, train, asked)
	if rng.Intn(3) == 0 { // trained again, on a grid laid out otherwise
		s.binary = rng.Intn(4) == 0
		rng.Shuffle(len(s.names), func(i, j int) { s.names[i], s.names[j] = s.names[j], s.names[i] })
		perceiveOn(t, s, p, 2+rng.Intn(12), 10)
	}
}

func perceiveOn(t *vh.T, s twoClass, p *perceptron.AveragePerceptron, train, asked int) {
	rng := t.Rng
	rows := smallRows(rng, train, s.feats)
	labels := make([]int, len(rows))
	for i := range labels {
		labels[i] = rng.Intn(2)
		if rng.Intn(3) > 0 {
			if rows[i][0] > 0 {
				labels[i] = 1
			} else {
				labels[i] = 0
			}
		}
	}
	points := floats(rows)
	if rng.Intn(4) == 0 {
		by := []float64{0.001, 0.1, 3, 100}[rng.Intn(4)]
		for _, r := range points {
			for i := range r {
				r[i] *= by
			}
		}
	}
	g := s.grid(points, labels)
	was := cells(g)
	p.Fit(g)
	t.Log(vh.Ev{"e": "Same", "was": was, "now": cells(g)})
	ask := func(rows [][]float64) []int {
		return answers(p.Predict(s.grid(rows, nil)))
	}
	w := probe(s.feats, ask)
	ok := true
	for _, v := range w {
		ok = ok && v > -5e6 && v < 5e6
	}
	if zero := ask([][]float64{make([]float64, s.feats)}); !ok || zero[0] != 0 || vhNaN(w) {
		t.Note("steep", fmt.Sprint(w))
		t.Log(vh.Ev{"e": "Probe", "w": make([]int, s.feats)})
		return
	}
	t.Log(vh.Ev{"e": "Probe", "w": w})
	for k := 0; k < 3; k++ {
		n := 1 + rng.Intn(asked)
		if asked > 10 {
			n = asked
		}
		rows := smallRows(rng, n, s.feats)
		labels := make([]int, len(rows))
		for i := range labels {
			labels[i] = rng.Intn(2)
		}
		q := s
		if k == 1 && len(s.names) > 1 { // columns in another order
			q.names = append([]string{}, s.names...)
			rng.Shuffle(len(q.names), func(i, j int) { q.names[i], q.names[j] = q.names[j], q.names[i] })
		}
		g := q.grid(floats(rows), labels)
		was := cells(g)
		t.Log(vh.Ev{"e": "Predict", "rows": rows, "got": answers(p.Predict(g))})
		t.Log(vh.Ev{"e": "Same", "was": was, "now": cells(g)})
		var pick []int
		var part [][]int
		for i := 0; i < 1+rng.Intn(4); i++ {
			j := rng.Intn(len(rows))
			pick = append(pick, j+1)
			part = append(part, rows[j])
		}
		t.Log(vh.Ev{"e": "Part", "pick": pick, "got": answers(p.Predict(q.grid(floats(part), nil)))})
	}
}

func vhNaN(w []int) bool {
	for _, v := range w {
		if v == vh.BadInt || math.Abs(float64(v)) > 5e6 {
			return true
		}
	}
	return false
}

func init() {
	vh.Register("C37", func(c *vh.Ctx) {
		for i := 0; i < c.N(600, 10000); i++ {
			c.Case("perceptron", perceive)
		}
		for i := 0; i < c.N(40, 600); i++ {
			i := i
			c.Case("large", func(t *vh.T) {
				switch i % 4 {
				case 0:
					perceiveSize(t, 5+t.Rng.Intn(30), 2+t.Rng.Intn(12), 10)
				case 1:
					perceiveSize(t, 1+t.Rng.Intn(3), 250+t.Rng.Intn(100), 10)
				default:
					perceiveSize(t, 1+t.Rng.Intn(3), 2+t.Rng.Intn(12), 250+t.Rng.Intn(100))
				}
			})
		}
		for i := 0; i < 8; i++ {
			c.Canary("off", perceive, func(evs []vh.Ev) []vh.Ev {
				for k := len(evs) - 1; k >= 0; k-- {
					if evs[k]["e"] == "Part" {
						g := evs[k]["got"].([]interface{})
						g[0] = 1 - g[0].(float64)
						return evs
					}
				}
				evs[0]["now"] = "changed"
				return evs
			})
		}
	})
}
