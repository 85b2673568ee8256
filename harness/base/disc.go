package main

import (
	"math"
	"strconv"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// discGrid is a grid of integer columns (times unit) and a class; fresh makes equal attribute objects.
func discGrid(cols [][]int, clss []int, unit float64, prec int, classes int) (*base.DenseInstances, func(i int) *base.FloatAttribute) {
	fresh := func(i int) *base.FloatAttribute {
		a := base.NewFloatAttribute("x" + strconv.Itoa(i))
		a.Precision = prec
		return a
	}
	d := base.NewDenseInstances()
	var as []base.Attribute
	for i := range cols {
		as = append(as, fresh(i))
		d.AddAttribute(as[i])
	}
	cl := base.NewCategoricalAttribute()
	cl.SetName("class")
	for i := 0; i < classes; i++ {
		cl.GetSysValFromString("c" + strconv.Itoa(i+1))
	}
	d.AddAttribute(cl)
	must(d.AddClassAttribute(cl))
	d.Extend(len(clss))
	for i, a := range as {
		sp, err := d.GetAttribute(a)
		must(err)
		for r := range clss {
			d.Set(sp, r, base.PackFloatToBytes(float64(cols[i][r])*unit))
		}
	}
	sp, err := d.GetAttribute(cl)
	must(err)
	for r := range clss {
		d.Set(sp, r, base.PackU64ToBytes(uint64(clss[r]-1)))
	}
	return d, fresh
}

// applied reads the codes and the labels of filtered column i.
func applied(g base.FixedDataGrid, i int) (codes []int, labels []float64) {
	codes, labels = make([]int, 0), make([]float64, 0)
	a, ok := base.GetAttributeByName(g, "x"+strconv.Itoa(i)).(*base.CategoricalAttribute)
	if !ok {
		return []int{vh.BadInt}, labels
	}
	sp, err := g.GetAttribute(a)
	must(err)
	_, n := g.Size()
	for r := 0; r < n; r++ {
		codes = append(codes, int(base.UnpackBytesToU64(g.Get(sp, r))))
		a.GetStringFromSysVal(g.Get(sp, r)) // every code has a label
	}
	for _, s := range a.GetValues() {
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			f = math.NaN()
		}
		labels = append(labels, f)
	}
	return
}

func least(v []int) int {
	m := v[0]
	for _, x := range v {
		if x < m {
			m = x
		}
	}
	return m
}

func greatest(v []int) int {
	m := v[0]
	for _, x := range v {
		if x > m {
			m = x
		}
	}
	return m
}

var chiSig = []float64{0.50, 0.80, 0.90, 0.95}

func init() {
	vh.Register("C14", func(c *vh.Ctx) {
		column := func(t *vh.T, n, spread int) []int {
			off := t.Rng.Intn(3*spread) - 2*spread
			v := make([]int, n)
			for i := range v {
				v[i] = off + t.Rng.Intn(spread)
			}
			return v
		}
		binned := func(t *vh.T, n, spread, b int) {
			cols := [][]int{column(t, n, 1+t.Rng.Intn(5)), column(t, n, 1+t.Rng.Intn(spread)), column(t, n, 20)}
			unit := []float64{1, 1, 1, math.Ldexp(1, 20), math.Ldexp(1, -40), math.Ldexp(1, 200)}[t.Rng.Intn(6)]
			clss := make([]int, n)
			for i := range clss {
				clss[i] = 1
			}
			prec := t.Rng.Intn(5)
			d, fresh := discGrid(cols, clss, unit, prec, 1)
			t.Note("unit", unit)
			f := filters.NewBinningFilter(d, b)
			other := t.Rng.Intn(2) == 0
			for i := 0; i < 2; i++ { // column 2 is left alone
				var a base.Attribute = base.GetAttributeByName(d, "x"+strconv.Itoa(i))
				if other {
					a = fresh(i)
				}
				must(f.AddAttribute(a))
			}
			must(f.Train())
			t.Note("equal_but_other_objects", other)
			// the training data, and other data with values inside and outside the range
			probes := make([][]int, 3)
			pc := make([]int, 15)
			for i := range probes {
				probes[i] = make([]int, len(pc))
				for r := range pc {
					pc[r] = 1
					probes[i][r] = cols[i][t.Rng.Intn(n)] + t.Rng.Intn(7) - 3
					if lo, hi := least(cols[i]), greatest(cols[i]); t.Rng.Intn(3) == 0 && hi > lo { // the last value below a bin's edge
						j := 1 + t.Rng.Intn(b)
						probes[i][r] = lo + (j*(hi-lo)+b-1)/b - 1
					}
				}
			}
			dp, _ := discGrid(probes, pc, unit, prec, 1)
			// the labels are printed with so many decimals
			tol := int(math.Min(1000000, 500*math.Pow(10, -float64(prec))/unit)) + 1
			for i := 0; i < 2; i++ {
				for k, g := range []base.FixedDataGrid{d, dp} {
					codes, labels := applied(base.NewLazilyFilteredInstances(g, f), i)
					ls := make([]int, 0)
					for _, x := range labels {
						if unit > 1e6 { // only the sum's rounding is left
							x = math.Floor(x/unit*1000+0.5) / 1000 * unit
						}
						if unit < 1 {
							x = math.Floor(x/unit*1000+0.5) / 1000 * unit
						}
						ls = append(ls, vh.Scaled(x/unit, 1000))
					}
					t.Log(vh.Ev{"e": "Bins", "vals": cols[i], "bins": b, "probes": [][]int{cols[i], probes[i]}[k], "codes": codes, "labels": ls, "tol": tol})
				}
			}
			g := base.NewLazilyFilteredInstances(d, f)
			sp, err := g.GetAttribute(fresh(2))
			must(err)
			for r := range cols[2] {
				if base.UnpackBytesToFloat(g.Get(sp, r)) != float64(cols[2][r])*unit {
					t.Log(vh.Ev{"e": "Touched"})
				}
			}
		}
		bins := func(t *vh.T) { binned(t, 1+t.Rng.Intn(12), []int{5, 600, 600, 8000}[t.Rng.Intn(4)], 1+t.Rng.Intn(12)) }
		chiOf := func(t *vh.T, wide, many bool) {
			mult := 1
			k := 2 + t.Rng.Intn(3)
			n := k + t.Rng.Intn(25)
			unit := []float64{1, 0.25, 1e-8}[t.Rng.Intn(3)]
			cols := [][]int{column(t, n, 2+t.Rng.Intn(8)), column(t, n, 2+t.Rng.Intn(8))}
			clss := make([]int, n)
			if wide { // many values and classes, neighbours mostly unlike
				k = 2 + t.Rng.Intn(7)
				vals := 10 + t.Rng.Intn(4)
				n = 0
				cols, clss = [][]int{nil}, nil
				for _, v := range t.Rng.Perm(vals) {
					for j := 0; j < 2+t.Rng.Intn(3); j++ {
						cols[0] = append(cols[0], v-3)
						cl := 1 + (v/(1+v%2))%k
						if n < k {
							cl = n + 1
						}
						clss = append(clss, cl)
						n++
					}
				}
			}
			if many { // every value has a class of its own, or that of a neighbour, and a great many rows
				k, mult = 2+t.Rng.Intn(6), 100+t.Rng.Intn(800)
				n = k + t.Rng.Intn(3)
				cols, clss = [][]int{nil}, nil
				for _, v := range t.Rng.Perm(n) {
					cols[0] = append(cols[0], v-3)
					clss = append(clss, 1+v*k/n)
				}
			}
			cut := cols[0][t.Rng.Intn(n)]
			for i := range clss {
				if wide || many {
					break
				}
				clss[i] = 1 + t.Rng.Intn(k)
				if t.Rng.Intn(3) > 0 { // some structure
					if clss[i] = 1; cols[0][i] < cut {
						clss[i] = k
					}
				}
				if i < k {
					clss[i] = i + 1
				}
			}
			rows, rowClss := make([][]int, len(cols)), []int{}
			for m := 0; m < mult; m++ {
				for i := range cols {
					rows[i] = append(rows[i], cols[i]...)
				}
				rowClss = append(rowClss, clss...)
			}
			d, fresh := discGrid(rows, rowClss, unit, 2, k)
			sig := 1 + t.Rng.Intn(4)
			f := filters.NewChiMergeFilter(d, chiSig[sig-1])
			if t.Rng.Intn(2) == 0 {
				f.MinRows = 1 + t.Rng.Intn(4)
			}
			if t.Rng.Intn(2) == 0 {
				f.MaxRows = 1 + t.Rng.Intn(6)
			}
			if many {
				f.MinRows, f.MaxRows = 2, 100
			}
			other := t.Rng.Intn(2) == 0
			t.Note("equal_but_other_objects", other)
			t.Note("unit", unit)
			for i := range cols {
				var a base.Attribute = base.GetAttributeByName(d, "x"+strconv.Itoa(i))
				if other {
					a = fresh(i)
				}
				must(f.AddAttribute(a))
			}
			must(f.Train())
			probes := make([][]int, len(cols))
			pc := make([]int, 2*n)
			for i := range probes {
				probes[i] = append([]int{}, cols[i]...)
				for r := range pc {
					pc[r] = 1
					if r >= n {
						probes[i] = append(probes[i], cols[i][r-n]+t.Rng.Intn(3)-1)
					}
				}
			}
			dp, _ := discGrid(probes, pc, unit, 2, k)
			for i := range cols {
				codes, labels := applied(base.NewLazilyFilteredInstances(dp, f), i)
				ls := make([]int, 0)
				for _, x := range labels {
					ls = append(ls, vh.Scaled(x, 1/unit))
				}
				t.Log(vh.Ev{"e": "Column", "vals": cols[i], "clss": clss, "par": vh.Ev{"minr": f.MinRows, "maxr": f.MaxRows, "sig": sig, "k": k, "mult": mult}})
				t.Log(vh.Ev{"e": "Intervals", "exact": unit > 1e-6, "labels": ls, "probes": probes[i], "codes": codes})
			}
		}
		chi := func(t *vh.T) { chiOf(t, false, false) }
		for i := 0; i < c.N(20, 200); i++ {
			c.Case("binning-many", func(t *vh.T) { binned(t, 1+t.Rng.Intn(400), 900, 13+t.Rng.Intn(300)) })
		}
		for i := 0; i < c.N(40, 500); i++ {
			c.Case("chimerge-wide", func(t *vh.T) { chiOf(t, true, false) })
		}
		for i := 0; i < c.N(24, 200); i++ {
			c.Case("chimerge-many", func(t *vh.T) { chiOf(t, false, true) })
		}
		for i := 0; i < c.N(200, 3000); i++ {
			c.Case("binning", bins)
		}
		for i := 0; i < c.N(250, 4000); i++ {
			c.Case("chimerge", chi)
		}
		for i := 0; i < 5; i++ {
			bump := func(evs []vh.Ev) []vh.Ev {
				for _, e := range evs {
					if x, ok := e["codes"].([]interface{}); ok {
						x[0] = x[0].(float64) + 1
						break
					}
				}
				return evs
			}
			c.Canary("bins", bins, bump)
			c.Canary("chi", chi, bump)
		}
	})
}
