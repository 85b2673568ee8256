package main

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// space is a set of features and a class; number says that the class is a number.
type space struct {
	feats []base.Attribute
	class base.Attribute
	many  bool
	names []string
}

func (s *space) grid(t *vh.T, rows [][]float64, labels []int) base.FixedDataGrid {
	g := base.NewDenseInstances()
	as := append([]base.Attribute{s.class}, s.feats...)
	for _, k := range t.Rng.Perm(len(as)) {
		g.AddAttribute(as[k])
	}
	must(g.AddClassAttribute(s.class))
	must(g.Extend(len(rows)))
	for r := range rows {
		for j, a := range s.feats {
			sp, err := g.GetAttribute(a)
			must(err)
			g.Set(sp, r, base.PackFloatToBytes(rows[r][j]))
		}
		sp, err := g.GetAttribute(s.class)
		must(err)
		l := 0
		if labels != nil {
			l = labels[r]
		} else {
			l = t.Rng.Intn(len(s.names))
		}
		if s.many {
			g.Set(sp, r, base.PackU64ToBytes(uint64(l)))
		} else {
			g.Set(sp, r, base.PackFloatToBytes(float64(l)))
		}
	}
	return g
}

type linear interface {
	Fit(base.FixedDataGrid) error
	Predict(base.FixedDataGrid) (base.FixedDataGrid, error)
}

func floats(rows [][]int) [][]float64 {
	out := make([][]float64, len(rows))
	for i := range rows {
		out[i] = make([]float64, len(rows[i]))
		for j, v := range rows[i] {
			out[i][j] = float64(v)
		}
	}
	return out
}

func separator(t *vh.T, onehot, forceMany, large bool) {
	rng := t.Rng
	d := 1 + rng.Intn(3)
	many := forceMany || rng.Intn(3) == 0
	classes := 2
	if many || onehot {
		d = 3
	}
	if many {
		classes = 3
		if large && rng.Intn(2) == 0 {
			d, classes = 4, 4
		}
	}
	s := &space{many: many}
	for j := 0; j < d; j++ {
		s.feats = append(s.feats, base.NewFloatAttribute(fmt.Sprintf("x%d", j)))
	}
	if many {
		a := base.NewCategoricalAttribute()
		a.SetName("class")
		for _, l := range []string{"red", "green", "blue", "a b"}[:classes] {
			a.GetSysValFromString(l)
			s.names = append(s.names, l)
		}
		s.class = a
	} else {
		s.class = base.NewFloatAttribute("class")
		s.names = []string{"0", "1"}
	}
	// the rows
	least, most, copies := 4, 9, 6
	if large && rng.Intn(2) == 0 {
		least, most = 150, 400
		if onehot {
			least, most, copies = 350, 200, 1
		}
	}
	data := func() (rows [][]int, labels, counts []int) {
		n := least + rng.Intn(most)
		axis, sign := rng.Perm(d), make([]int, d)
		for j := range sign {
			sign[j] = 1 - 2*rng.Intn(2)
		}
		u := make([]int, d)
		for zero := true; zero; {
			for j := range u {
				u[j] = rng.Intn(5) - 2
				zero = zero && u[j] == 0
			}
		}
		contrary := 40
		if least > 9 {
			contrary = 1000
		}
		skew, likely := make([]float64, d), make([]int, d)
		for j := range skew {
			skew[j], likely[j] = []float64{0, 0.5, 0.8, 0.95, 1}[rng.Intn(5)], rng.Intn(classes)
		}
		for tries := 0; len(rows) < n && tries < 2000; tries++ {
			x := make([]int, d)
			l := rng.Intn(classes)
			switch {
			case len(rows) > classes && rng.Intn(copies) == 0 && !onehot:
				k := rng.Intn(len(rows))
				x, l = rows[k], labels[k]
			case onehot:
				j := rng.Intn(d)
				if rng.Float64() < skew[j] {
					l = likely[j]
				}
				if len(rows) < classes {
					l = len(rows)
				}
				x[j] = 1
			case many:
				if len(rows) < classes {
					l = len(rows)
				}
				for j := range x {
					v := -1 - rng.Intn(3)
					if axis[j] == l {
						v = 1 + rng.Intn(3)
					}
					x[j] = sign[j] * v
				}
			default:
				dot := 0
				for j := range x {
					x[j] = rng.Intn(7) - 3
					dot += x[j] * u[j]
				}
				if dot == 0 {
					continue
				}
				l = 0
				if dot > 0 {
					l = 1
				}
				if len(rows) < 2 && len(rows) != l { // both classes occur
					continue
				}
				if len(rows) >= 2 && rng.Intn(contrary) == 0 {
					l = 1 - l // not separable any more, perhaps
				}
			}
			rows = append(rows, x)
			labels = append(labels, l)
		}
		rng.Shuffle(len(rows), func(i, j int) {
			rows[i], rows[j] = rows[j], rows[i]
			labels[i], labels[j] = labels[j], labels[i]
		})
		counts = make([]int, classes)
		for _, l := range labels {
			counts[l]++
		}
		return
	}
	// the model
	c := []int{10, 100}[rng.Intn(2)]
	if least > 9 {
		c = 10
	}
	// numbers are whole ones in units of unit; C goes with their squares, or with them
	unit := 1.0
	if large || rng.Intn(6) == 0 {
		unit = []float64{1, 1.0 / 16, 8}[rng.Intn(3)]
	}
	price := func(sparse bool) float64 {
		if sparse {
			return float64(c) / unit
		}
		return float64(c) / (unit * unit)
	}
	cw := make([][]int, classes)
	for k := range cw {
		cw[k] = []int{1, 1}
	}
	plain, auto := true, false
	var m linear
	var err error
	kind := "hinge"
	losses := [][3]string{{"l2", "l2", "dual"}, {"l2", "l2", ""}, {"l1", "l2", "dual"}, {"l2", "l1", ""}}
	lp := losses[rng.Intn(len(losses))]
	if onehot && many {
		lp = losses[1]
	} else if onehot && large { // solvers which always finish
		lp = losses[1+2*rng.Intn(2)]
	}
	dual := lp[2] == "dual"
	if lp[1] == "l1" {
		kind = "sparse"
	}
	switch {
	case many:
		var w map[string]float64
		if rng.Intn(2) == 0 {
			plain = false
			w = map[string]float64{}
			for k, nm := range s.names {
				cw[k] = []int{1 + rng.Intn(4), 1}
				w[nm] = float64(cw[k][0])
			}
		}
		m = ensemble.NewMultiLinearSVC(lp[0], lp[1], dual, price(lp[1] == "l1"), 1e-4, w)
	case rng.Intn(3) == 0 && !(onehot && large):
		kind = "logistic"
		c = 1000
		sparse := rng.Intn(2) == 0
		m, err = linear_models.NewLogisticRegression(map[bool]string{true: "l1", false: "l2"}[sparse], price(sparse), 1e-5)
		must(err)
	default:
		p := &linear_models.LinearSVCParams{C: price(lp[1] == "l1"), Eps: 1e-4, Dual: dual}
		must(p.SetKindFromStrings(lp[0], lp[1]))
		how := rng.Intn(3)
		if onehot && large && rng.Intn(2) == 0 {
			how = 0
		}
		switch how {
		case 0:
			auto = true
			p.WeightClassesAutomatically = true
		case 1:
			p.ClassWeights = make([]float64, 2)
			for k := range cw {
				cw[k] = []int{1 + rng.Intn(5), 1 + rng.Intn(4)}
				p.ClassWeights[k] = float64(cw[k][0]) / float64(cw[k][1])
			}
		}
		if rng.Intn(2) == 0 {
			p = p.Copy()
		}
		m, err = linear_models.NewLinearSVCFromParams(p)
		must(err)
	}
	floats := func(rows [][]int) [][]float64 {
		out := floats(rows)
		for _, r := range out {
			for j := range r {
				r[j] *= unit
			}
		}
		return out
	}
	t.Note("training", fmt.Sprint(kind, " ", lp, " many ", many))
	fits := 1
	if rng.Intn(4) == 0 || onehot && rng.Intn(2) == 0 {
		fits = 2 + rng.Intn(2)
	}
	for ; fits > 0; fits-- {
		rows, labels, counts := data()
		if auto {
			for k := range cw {
				cw[k] = []int{1, counts[k]}
			}
		}
		separated(t, s, m, rows, labels, func(q [][]int) [][]float64 { return floats(q) }, unit,
			vh.Ev{"e": "Fit", "kind": kind, "many": many, "plain": plain, "dual": dual && kind != "logistic", "c": c, "cw": append([][]int{}, cw...), "rows": rows, "labels": labels, "classes": classes})
	}
}

// separated trains a model on the rows and asks it about them and others.
func separated(t *vh.T, s *space, m linear, rows [][]int, labels []int, floats func([][]int) [][]float64, unit float64, fit vh.Ev) {
	rng, many, d, n := t.Rng, s.many, len(s.feats), len(rows)
	g := s.grid(t, floats(rows), labels)
	fit["out"] = vh.TryErr(func() error { return m.Fit(g) })
	t.Log(fit)
	ask := func(q [][]float64) []int {
		out, err := m.Predict(s.grid(t, q, nil))
		must(err)
		as := out.AllClassAttributes()
		sp, err := out.GetAttribute(as[0])
		must(err)
		ans := []int{}
		for r := range q {
			if many {
				v := -1
				for k, nm := range s.names {
					if base.GetClass(out, r) == nm {
						v = k
					}
				}
				ans = append(ans, v)
			} else {
				ans = append(ans, vh.Int(base.UnpackBytesToFloat(out.Get(sp, r))))
			}
		}
		return ans
	}
	t.Log(vh.Ev{"e": "Predict", "rows": rows, "answers": ask(floats(rows))})
	// other rows among them
	var q [][]int
	for len(q) < 8 {
		if rng.Intn(2) == 0 {
			q = append(q, rows[rng.Intn(n)])
			continue
		}
		x := make([]int, d)
		for j := range x {
			x[j] = rng.Intn(9) - 4
		}
		q = append(q, x)
	}
	t.Log(vh.Ev{"e": "Predict", "rows": q, "answers": ask(floats(q))})
	if many {
		return
	}
	// a part of the plane, with its sums and opposites
	var pts [][]int
	for k := 0; k < 3; k++ {
		a, b := make([]int, d), make([]int, d)
		for j := range a {
			a[j], b[j] = rng.Intn(9)-4, rng.Intn(9)-4
		}
		sum, neg, twice := make([]int, d), make([]int, d), make([]int, d)
		for j := range a {
			sum[j], neg[j], twice[j] = a[j]+b[j], -a[j], 2*a[j]
		}
		pts = append(pts, a, b, sum, neg, twice)
	}
	ans := ask(floats(pts))
	clear := make([]bool, len(pts))
	for i := range pts {
		var near [][]float64
		for j := 0; j < d; j++ {
			for _, e := range []float64{-1e-4, 1e-4} {
				f := floats(pts[i : i+1])[0]
				f[j] += e * unit
				near = append(near, f)
			}
		}
		clear[i] = true
		for _, v := range ask(near) {
			clear[i] = clear[i] && v == ans[i]
		}
	}
	t.Log(vh.Ev{"e": "Plane", "rows": pts, "answers": ans, "clear": clear})
}

func init() {
	vh.Register("C40", func(c *vh.Ctx) {
		for i := 0; i < c.N(500, 8000); i++ {
			c.Case("separable", func(t *vh.T) { separator(t, false, false, false) })
			if i%2 == 0 {
				c.Case("one-feature", func(t *vh.T) { separator(t, true, i%4 == 0, false) })
			}
		}
		for i := 0; i < c.N(100, 1200); i++ {
			i := i
			c.Case("large", func(t *vh.T) { separator(t, i%2 == 0, i%8 == 0, true) })
		}
		for i := 0; i < 4; i++ {
			c.Canary("label", func(t *vh.T) { separator(t, false, false, false) }, func(evs []vh.Ev) []vh.Ev {
				evs[1]["answers"].([]interface{})[0] = 2 - evs[1]["answers"].([]interface{})[0].(float64)
				evs[1]["answers"].([]interface{})[1] = 5
				return evs
			})
		}
	})
}
