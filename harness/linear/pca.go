package main

import (
	"github.com/sjwhitworth/golearn/pca"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
	"gonum.org/v1/gonum/mat"
)

func dense(rows [][]int) *mat.Dense {
	m := mat.NewDense(len(rows), len(rows[0]), nil)
	for i := range rows {
		for j, v := range rows[i] {
			m.Set(i, j, float64(v))
		}
	}
	return m
}

func scaled(m mat.Matrix, s float64) [][]int {
	r, c := m.Dims()
	out := make([][]int, r)
	for i := range out {
		out[i] = make([]int, c)
		for j := range out[i] {
			out[i][j] = vh.Scaled(m.At(i, j), s)
		}
	}
	return out
}

func components(t *vh.T, large bool) {
	rng := t.Rng
	d := 2 + rng.Intn(2)
	most := 7
	if large && rng.Intn(2) == 0 {
		d, most = 4, 4
		if rng.Intn(4) == 0 {
			d = 5
		}
	}
	// numbers are whole ones, moved by column and in units of unit
	unit, off := 1.0, make([]float64, d)
	if large || rng.Intn(4) == 0 {
		unit = []float64{1, 1.0 / (1 << 30), 1.0 / 1024, 1 << 12, 1 << 30}[rng.Intn(5)]
		for j := range off {
			off[j] = float64(rng.Intn(2001) - 1000)
			if rng.Intn(3) == 0 {
				off[j] *= 12347
			}
		}
	}
	dense := func(rows [][]int) *mat.Dense {
		m := dense(rows)
		m.Apply(func(i, j int, v float64) float64 { return (v + off[j]) * unit }, m)
		return m
	}
	whole := func(m *mat.Dense) [][]int {
		c := mat.DenseCopyOf(m)
		c.Apply(func(i, j int, v float64) float64 { return v/unit - off[j] }, c)
		return scaled(c, 1)
	}
	rows := func(n, top int) [][]int {
		out := make([][]int, n)
		mix := rng.Intn(3)
		for i := range out {
			out[i] = make([]int, d)
			for j := range out[i] {
				out[i][j] = rng.Intn(2*top+1) - top
			}
			if mix == 0 && d > 1 { // correlated
				out[i][1] = out[i][0] + rng.Intn(3) - 1
			}
		}
		return out
	}
	var p *pca.PCA
	for round := 0; round < 1+rng.Intn(2); round++ {
		data := rows(2+rng.Intn(most), 4)
		all := data
		if large && len(data) >= d && rng.Intn(2) == 0 { // each row many times over
			all = nil
			for n := 30 + rng.Intn(60); n > 0; n-- {
				all = append(all, data...)
			}
			rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		}
		most := d
		if len(data) < d {
			most = len(data)
		}
		k := rng.Intn(most + 1)
		if rng.Intn(6) == 0 {
			k = d + 1 + rng.Intn(3)
		}
		if p == nil || rng.Intn(2) == 0 {
			p = pca.NewPCA(k)
		} else {
			k = p.Num_components
			if k > most && k <= d {
				return
			}
		}
		x := dense(all)
		at := func(q [][]int) *mat.Dense { return p.Transform(dense(q)) }
		var first *mat.Dense
		if rng.Intn(2) == 0 {
			first = p.FitTransform(x)
		} else {
			p.Fit(x)
		}
		after := func() [][]int {
			if len(all) == len(data) {
				return whole(x)
			}
			if !mat.Equal(x, dense(all)) {
				return nil
			}
			return data
		}
		t.Log(vh.Ev{"e": "Fit", "k": k, "rows": data, "after": after()})
		probe := [][]int{make([]int, d)}
		for j := 0; j < d; j++ {
			u := make([]int, d)
			u[j] = 1
			probe = append(probe, u)
		}
		out := at(probe)
		_, cols := out.Dims()
		axes := make([][]int, cols)
		for a := range axes {
			axes[a] = make([]int, d)
			for j := range axes[a] {
				axes[a][j] = vh.Scaled((out.At(j+1, a)-out.At(0, a))/unit, 1000)
			}
		}
		t.Log(vh.Ev{"e": "Axes", "axes": axes})
		if first != nil {
			t.Log(vh.Ev{"e": "Transform", "rows": all, "after": whole(x), "out": scaled(first, 1000/unit)})
		}
		for i := 0; i < 2; i++ {
			q := rows(1+rng.Intn(5), 12)
			if large && rng.Intn(3) == 0 {
				q = rows(257+rng.Intn(40), 12)
			}
			if rng.Intn(3) == 0 {
				q = data
			}
			y := dense(q)
			t.Log(vh.Ev{"e": "Transform", "rows": q, "out": scaled(p.Transform(y), 1000/unit), "after": whole(y)})
		}
	}
}

func init() {
	vh.Register("C43", func(c *vh.Ctx) {
		for i := 0; i < c.N(600, 10000); i++ {
			c.Case("components", func(t *vh.T) { components(t, false) })
		}
		for i := 0; i < c.N(40, 600); i++ {
			c.Case("large", func(t *vh.T) { components(t, true) })
		}
		for i := 0; i < 4; i++ {
			i := i
			c.Canary("turned", func(t *vh.T) { components(t, false) }, func(evs []vh.Ev) []vh.Ev {
				if i%2 == 0 {
					a := evs[1]["axes"].([]interface{})[0].([]interface{})
					a[0] = a[0].(float64)*0.6 + a[1].(float64)*0.8
				} else {
					a := evs[len(evs)-1]["out"].([]interface{})[0].([]interface{})
					a[0] = a[0].(float64) + 1000
				}
				return evs
			})
		}
	})
}
