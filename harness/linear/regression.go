package main

import (
	"fmt"
	"math/big"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

type obs struct {
	X []int `json:"x"`
	Y int   `json:"y"`
}

// leastSquares solves the normal equations exactly; it only chooses which data sets are worth asking about
// (full rank, coefficients of a moderate size).
func leastSquares(rows []obs, d int) []*big.Rat {
	n := d + 1
	m := make([][]*big.Rat, n)
	full := func(o obs) []int { return append([]int{1}, o.X...) }
	for i := range m {
		m[i] = make([]*big.Rat, n+1)
		for j := range m[i] {
			m[i][j] = new(big.Rat)
			for _, o := range rows {
				f := full(o)
				v := o.Y
				if j < n {
					v = f[j]
				}
				m[i][j].Add(m[i][j], new(big.Rat).SetInt64(int64(f[i]*v)))
			}
		}
	}
	for i := 0; i < n; i++ {
		p := -1
		for r := i; r < n; r++ {
			if m[r][i].Sign() != 0 {
				p = r
				break
			}
		}
		if p < 0 {
			return nil
		}
		m[i], m[p] = m[p], m[i]
		for r := 0; r < n; r++ {
			if r == i || m[r][i].Sign() == 0 {
				continue
			}
			q := new(big.Rat).Quo(m[r][i], m[i][i])
			for k := i; k <= n; k++ {
				m[r][k] = new(big.Rat).Sub(m[r][k], new(big.Rat).Mul(q, m[i][k]))
			}
		}
	}
	out := make([]*big.Rat, n)
	for i := range out {
		out[i] = new(big.Rat).Quo(m[i][n], m[i][i])
	}
	return out
}

type table struct {
	feats []base.Attribute
	extra []base.Attribute
	class base.Attribute
	// numbers are whole ones, moved and in units, column by column (the class's last)
	unit, off []float64
}

// again is the same table, of attributes equal to those of the first.
func (tb *table) again() *table {
	out := &table{class: base.NewFloatAttribute(tb.class.GetName()), unit: tb.unit, off: tb.off, extra: tb.extra}
	for _, a := range tb.feats {
		out.feats = append(out.feats, base.NewFloatAttribute(a.GetName()))
	}
	return out
}

func (tb *table) measure(t *vh.T, plain bool) {
	n := len(tb.feats) + 1
	tb.unit, tb.off = make([]float64, n), make([]float64, n)
	for j := range tb.unit {
		tb.unit[j] = 1
		if !plain {
			tb.unit[j] = []float64{1, 1.0 / 1024, 64, 1 << 20, 1.0 / (1 << 20)}[t.Rng.Intn(5)]
			tb.off[j] = float64(t.Rng.Intn(401) - 200)
			if t.Rng.Intn(4) == 0 {
				tb.off[j] *= 5003
			}
		}
	}
}

func (tb *table) number(j, v int) []byte {
	return base.PackFloatToBytes((float64(v) + tb.off[j]) * tb.unit[j])
}

func (tb *table) grid(t *vh.T, rows []obs) base.FixedDataGrid {
	as := append(append([]base.Attribute{tb.class}, tb.feats...), tb.extra...)
	g := base.NewDenseInstances()
	for _, k := range t.Rng.Perm(len(as)) {
		g.AddAttribute(as[k])
	}
	must(g.AddClassAttribute(tb.class))
	if len(rows) > 0 {
		must(g.Extend(len(rows)))
	}
	for r, o := range rows {
		for j, a := range tb.feats {
			sp, err := g.GetAttribute(a)
			must(err)
			g.Set(sp, r, tb.number(j, o.X[j]))
		}
		sp, err := g.GetAttribute(tb.class)
		must(err)
		g.Set(sp, r, tb.number(len(tb.feats), o.Y))
		for _, a := range tb.extra {
			sp, err := g.GetAttribute(a)
			must(err)
			if _, ok := a.(*base.BinaryAttribute); ok {
				g.Set(sp, r, []byte{byte(t.Rng.Intn(2))})
			} else {
				g.Set(sp, r, base.PackU64ToBytes(uint64(t.Rng.Intn(2))))
			}
		}
	}
	return g
}

func outcome(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

func regression(t *vh.T, large bool) {
	d := t.Rng.Intn(4)
	if d == 0 {
		d = 1 + t.Rng.Intn(3)
	}
	most := 7
	if large {
		switch t.Rng.Intn(3) {
		case 0:
			d = 4 + t.Rng.Intn(9)
		case 1:
			most = 300
		}
	}
	tb := &table{class: base.NewFloatAttribute("y")}
	for j := 0; j < d; j++ {
		tb.feats = append(tb.feats, base.NewFloatAttribute(fmt.Sprintf("x%d", j)))
	}
	if t.Rng.Intn(3) == 0 {
		c := base.NewCategoricalAttribute()
		c.SetName("k")
		c.GetSysValFromString("u")
		c.GetSysValFromString("v")
		tb.extra = append(tb.extra, c, base.NewBinaryAttribute("b"))
	}
	tb.measure(t, t.Rng.Intn(3) > 0)
	row := func(plane []int, noise int) obs {
		o := obs{X: []int{}}
		for j := 0; j < d; j++ {
			o.X = append(o.X, t.Rng.Intn(11)-5)
		}
		if plane != nil {
			o.Y = plane[0]
			for j := range o.X {
				o.Y += plane[j+1] * o.X[j]
			}
		}
		if noise > 0 {
			o.Y += t.Rng.Intn(2*noise+1) - noise
		}
		return o
	}
	m := linear_models.NewLinearRegression()
	ask := func(rows []obs) []float64 {
		q := tb
		if t.Rng.Intn(2) == 0 {
			q = tb.again()
		}
		out, err := m.Predict(q.grid(t, rows))
		must(err)
		sp, err := out.GetAttribute(out.AllClassAttributes()[0])
		must(err)
		var fs []float64
		_, n := out.Size()
		for r := 0; r < n; r++ {
			fs = append(fs, base.UnpackBytesToFloat(out.Get(sp, r))/tb.unit[d]-tb.off[d])
		}
		return fs
	}
	if t.Rng.Intn(5) == 0 {
		t.Log(vh.Ev{"e": "Refuse", "out": vh.TryErr(func() error {
			_, err := m.Predict(tb.grid(t, []obs{row(nil, 0)}))
			return err
		})})
	}
	rounds := 1 + t.Rng.Intn(2)
	for i := 0; i < rounds; i++ {
		if i > 0 {
			tb.measure(t, t.Rng.Intn(3) > 0)
		}
		var rows []obs
		var planes [][]int
		for try := 0; ; try++ {
			n := d + 1 + t.Rng.Intn(most)
			if most > 7 {
				n = 250 + t.Rng.Intn(100)
			}
			plane := []int{t.Rng.Intn(9) - 4}
			for j := 0; j < d; j++ {
				plane = append(plane, t.Rng.Intn(7)-3)
			}
			noise := 0
			if t.Rng.Intn(3) > 0 {
				noise = 1 + t.Rng.Intn(10)
			}
			rows = nil
			for k := 0; k < n; k++ {
				rows = append(rows, row(plane, noise))
			}
			planes = [][]int{plane}
			ok := true
			if b := leastSquares(rows, d); b == nil {
				ok = false
			} else {
				for _, v := range b {
					f, _ := v.Float64()
					ok = ok && f > -200 && f < 200
				}
			}
			if ok {
				break
			}
		}
		t.Log(vh.Ev{"e": "Fit", "rows": rows, "out": vh.TryErr(func() error { return m.Fit(tb.grid(t, rows)) })})
		unit := []obs{{X: make([]int, d)}}
		for j := 0; j < d; j++ {
			u := obs{X: make([]int, d), Y: t.Rng.Intn(9)}
			u.X[j] = 1
			unit = append(unit, u)
		}
		f := ask(unit)
		co := []int{vh.Scaled(f[0], 1000)}
		for _, v := range f[1:] {
			co = append(co, vh.Scaled(v-f[0], 1000))
		}
		t.Log(vh.Ev{"e": "Coef", "coef": co, "planes": planes})
		bad := func() {
			few := rows[:t.Rng.Intn(d+1)]
			if len(few) == 0 {
				few = rows[:1]
			}
			if t.Rng.Intn(2) == 0 {
				t.Log(vh.Ev{"e": "Fit", "rows": few, "out": vh.TryErr(func() error { return m.Fit(tb.grid(t, few)) })})
			} else {
				g := tb.grid(t, rows).(*base.DenseInstances)
				if t.Rng.Intn(2) == 0 {
					must(g.RemoveClassAttribute(tb.class))
				} else {
					must(g.AddClassAttribute(tb.feats[0]))
				}
				t.Log(vh.Ev{"e": "Refuse", "out": vh.TryErr(func() error { return m.Fit(g) })})
			}
		}
		if t.Rng.Intn(3) == 0 {
			bad()
		}
		for k := 0; k < 2; k++ {
			var q []obs
			for len(q) < 1+t.Rng.Intn(8) || large && len(q) < 260 {
				q = append(q, row(nil, 20))
			}
			if k == 1 {
				q = append(q, rows...)
			}
			var xs [][]int
			for _, o := range q {
				xs = append(xs, o.X)
			}
			var ans []int
			for _, v := range ask(q) {
				ans = append(ans, vh.Scaled(v, 1000))
			}
			t.Log(vh.Ev{"e": "Predict", "rows": xs, "answers": ans})
		}
	}
}

func init() {
	vh.Register("C41", func(c *vh.Ctx) {
		for i := 0; i < c.N(600, 12000); i++ {
			c.Case("plane", func(t *vh.T) { regression(t, false) })
		}
		for i := 0; i < c.N(60, 900); i++ {
			c.Case("large", func(t *vh.T) { regression(t, true) })
		}
		for i := 0; i < 4; i++ {
			i := i
			c.Canary("off", func(t *vh.T) { regression(t, false) }, func(evs []vh.Ev) []vh.Ev {
				for _, e := range evs {
					if i%2 == 0 && e["e"] == "Coef" {
						b := e["coef"].([]interface{})
						b[0] = b[0].(float64) + 400
					}
					if i%2 == 1 && e["e"] == "Predict" {
						b := e["answers"].([]interface{})
						b[0] = b[0].(float64) + 400
					}
				}
				return evs
			})
		}
	})
}
