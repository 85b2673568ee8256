package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// Values used in generated tables, in numeric order; entries with the same rank are the same number.
var tabFloats = []float64{math.Inf(-1), -1e300, -1024.5, -3, -2.5, -2, -1, -1e-310, math.Copysign(0, -1), 0, 5e-324, 0.25, 1, 1.5, 2, 255, 256, 257, 65536, 1e300, math.Inf(1)}
var tabRanks = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}

// Categorical codes follow the floats in the value table, then 0/1 of binary cells, then row ids.
func tabCats(rows int) int {
	if rows > 100 {
		return 300
	}
	return 4
}

type tabl struct {
	grid  base.FixedDataGrid // what the operations are applied to
	cols  []base.Attribute
	kinds []int // 0 float, 1 categorical, 2 binary, 3 row id
	ord   []int
	cats  int
}

func (tb *tabl) cell(k int, b []byte) int {
	nf := len(tabFloats)
	switch tb.kinds[k] {
	case 0:
		f := base.UnpackBytesToFloat(b)
		for i, v := range tabFloats {
			if math.Float64bits(v) == math.Float64bits(f) {
				return i + 1
			}
		}
	case 1:
		u := base.UnpackBytesToU64(b)
		if u < uint64(tb.cats) {
			return nf + 1 + int(u)
		}
	case 2:
		if b[0] <= 1 {
			return nf + tb.cats + 1 + int(b[0])
		}
	case 3:
		f := base.UnpackBytesToFloat(b)
		if f >= 0 && f < 1000 && f == math.Trunc(f) {
			return nf + tb.cats + 3 + int(f)
		}
	}
	return vh.BadInt
}

// rows reads every cell of g, in the order of the table's columns.
func (tb *tabl) rows(g base.FixedDataGrid) [][]int {
	_, n := g.Size()
	out := make([][]int, n)
	specs := make([]base.AttributeSpec, len(tb.cols))
	for k, a := range tb.cols {
		sp, err := g.GetAttribute(a)
		if err != nil {
			return [][]int{{vh.BadInt}}
		}
		specs[k] = sp
	}
	for r := range out {
		out[r] = make([]int, len(specs))
		for k, sp := range specs {
			out[r][k] = tb.cell(k, g.Get(sp, r))
		}
	}
	return out
}

// sameCols: g has the table's attributes in order, and its class attributes.
func (tb *tabl) sameCols(gs ...base.FixedDataGrid) bool {
	for _, g := range gs {
		m, _ := g.Size()
		as, ref := g.AllAttributes(), tb.grid.AllAttributes()
		if m != len(ref) || len(as) != len(ref) {
			return false
		}
		for i := range as {
			if !as[i].Equals(ref[i]) {
				return false
			}
		}
		c1, c2 := g.AllClassAttributes(), tb.grid.AllClassAttributes()
		if len(c1) != len(c2) || len(base.AttributeIntersect(c1, c2)) != len(c2) {
			return false
		}
	}
	return true
}

func (tb *tabl) load(t *vh.T) {
	t.Log(vh.Ev{"e": "Load", "rows": tb.rows(tb.grid), "ord": tb.ord})
}

func newTable(rng *rand.Rand, rows int, floatsOnly bool) *tabl {
	tb := &tabl{cats: tabCats(rows)}
	g := base.NewDenseInstances()
	ncols := 1 + rng.Intn(3)
	for k := 0; k < ncols; k++ {
		kind := 0
		if !floatsOnly {
			kind = []int{0, 0, 1, 2}[rng.Intn(4)]
		}
		var a base.Attribute
		switch kind {
		case 1:
			c := base.NewCategoricalAttribute()
			c.SetName(fmt.Sprintf("k%d", k))
			for i := 0; i < tb.cats; i++ {
				c.GetSysValFromString(fmt.Sprintf("l%d", i))
			}
			a = c
		case 2:
			a = base.NewBinaryAttribute(fmt.Sprintf("k%d", k))
		default:
			a = base.NewFloatAttribute(fmt.Sprintf("k%d", k))
		}
		tb.cols = append(tb.cols, a)
		tb.kinds = append(tb.kinds, kind)
	}
	tb.cols = append(tb.cols, base.NewFloatAttribute("id"))
	tb.kinds = append(tb.kinds, 3)
	for _, a := range tb.cols {
		g.AddAttribute(a)
	}
	if rng.Intn(3) > 0 {
		g.AddClassAttribute(tb.cols[rng.Intn(len(tb.cols))])
	}
	g.Extend(rows)
	spread := 1 + rng.Intn(len(tabFloats))
	off := rng.Intn(len(tabFloats))
	for k, a := range tb.cols {
		sp, err := g.GetAttribute(a)
		if err != nil {
			panic(err)
		}
		for r := 0; r < rows; r++ {
			var b []byte
			switch tb.kinds[k] {
			case 0:
				b = base.PackFloatToBytes(tabFloats[(off+rng.Intn(spread))%len(tabFloats)])
			case 1:
				b = base.PackU64ToBytes(uint64(rng.Intn(tb.cats)))
			case 2:
				b = []byte{byte(rng.Intn(2))}
			default:
				b = base.PackFloatToBytes(float64(r))
			}
			g.Set(sp, r, b)
		}
	}
	tb.ord = append(tb.ord, tabRanks...)
	for i := 0; i < tb.cats; i++ {
		tb.ord = append(tb.ord, 100+i)
	}
	tb.ord = append(tb.ord, 1000, 1001)
	for i := 0; i < 1000 && i < rows+1; i++ {
		tb.ord = append(tb.ord, 2000+i)
	}
	tb.grid = g
	return tb
}

// window puts a row view (repeats and reorderings included) over the table.
func (tb *tabl) window(rng *rand.Rand) {
	_, n := tb.grid.Size()
	if n == 0 {
		return
	}
	if rng.Intn(2) == 0 {
		sel := make([]int, 0)
		for i := 0; i < rng.Intn(n+2); i++ {
			sel = append(sel, rng.Intn(n))
		}
		tb.grid = base.NewInstancesViewFromVisible(tb.grid, sel, tb.grid.AllAttributes())
		return
	}
	m := map[int]int{}
	for i := 0; i < n; i++ {
		if rng.Intn(2) == 0 {
			m[i] = rng.Intn(n)
		}
	}
	tb.grid = base.NewInstancesViewFromRows(tb.grid, m)
}

func tabRows(rng *rand.Rand) int {
	switch rng.Intn(8) {
	case 0:
		return 20 + rng.Intn(40)
	case 1:
		return rng.Intn(3)
	}
	return 2 + rng.Intn(8)
}

func (tb *tabl) keys(rng *rand.Rand) ([]int, []base.AttributeSpec) {
	var ks []int
	var specs []base.AttributeSpec
	for _, k := range rng.Perm(len(tb.cols))[:1+rng.Intn(len(tb.cols))] {
		sp, err := tb.grid.GetAttribute(tb.cols[k])
		if err != nil {
			panic(err)
		}
		ks = append(ks, k+1)
		specs = append(specs, sp)
	}
	return ks, specs
}

func manyRows(rng *rand.Rand) int {
	return 250 + rng.Intn(60) + 260*rng.Intn(3)/2
}

func sortCase(floats, view, many bool) func(t *vh.T) {
	return func(t *vh.T) {
		n := tabRows(t.Rng)
		if many {
			n = manyRows(t.Rng)
		}
		tb := newTable(t.Rng, n, floats)
		if view {
			tb.window(t.Rng)
			if t.Rng.Intn(2) == 0 {
				tb.window(t.Rng)
			}
		}
		tb.load(t)
		for pass := 0; pass < 3; pass++ {
			ks, specs := tb.keys(t.Rng)
			asc := t.Rng.Intn(2) == 0
			dir := base.Descending
			if asc {
				dir = base.Ascending
			}
			lz, err := base.LazySort(tb.grid, dir, specs)
			if err != nil {
				panic(err)
			}
			lazy := tb.rows(lz)
			t.Log(vh.Ev{"e": "LazySort", "keys": ks, "asc": asc, "out": lazy, "src": tb.rows(tb.grid), "cols": tb.sameCols(lz)})
			if !view && pass > 0 {
				out, err := base.Sort(tb.grid, dir, specs)
				if err != nil {
					panic(err)
				}
				t.Log(vh.Ev{"e": "Sort", "keys": ks, "asc": asc, "out": tb.rows(out), "lazy": lazy, "cols": tb.sameCols(out)})
			}
		}
	}
}

func arrangeCase(view, many bool) func(t *vh.T) {
	return func(t *vh.T) {
		n := tabRows(t.Rng)
		if many {
			n = manyRows(t.Rng)
		}
		tb := newTable(t.Rng, n, false)
		if view {
			tb.window(t.Rng)
		}
		tb.load(t)
		for pass := 0; pass < 4; pass++ {
			_, n := tb.grid.Size()
			switch t.Rng.Intn(4) {
			case 0:
				out := base.LazyShuffle(tb.grid)
				t.Log(vh.Ev{"e": "LazyShuffle", "out": tb.rows(out), "src": tb.rows(tb.grid), "cols": tb.sameCols(out)})
			case 1:
				out := base.Shuffle(tb.grid)
				t.Log(vh.Ev{"e": "Shuffle", "inplace": !view, "out": tb.rows(out), "src": tb.rows(tb.grid), "cols": tb.sameCols(out)})
			case 2:
				prop := []float64{0, 0.1, 0.5, 0.66, 1}[t.Rng.Intn(5)]
				a, b := base.InstancesTrainTestSplit(tb.grid, prop)
				t.Log(vh.Ev{"e": "Split", "inplace": !view, "train": tb.rows(a), "test": tb.rows(b), "src": tb.rows(tb.grid), "cols": tb.sameCols(a, b)})
			default:
				size := 0
				if n > 0 {
					size = []int{0, 1, n / 2, n, n + 3, 2 * n}[t.Rng.Intn(6)]
				}
				out := base.SampleWithReplacement(tb.grid, size)
				t.Log(vh.Ev{"e": "Sample", "n": size, "out": tb.rows(out), "src": tb.rows(tb.grid), "cols": tb.sameCols(out)})
			}
		}
	}
}

func init() {
	vh.Register("C05", func(c *vh.Ctx) {
		for i := 0; i < c.N(200, 4000); i++ {
			c.Case("numeric", sortCase(true, false, false))
			c.Case("mixed", sortCase(false, false, false))
			c.Case("view", sortCase(false, true, false))
		}
		for i := 0; i < c.N(16, 200); i++ {
			c.Case("many", sortCase(i%4 == 0, i%4 == 1, true))
		}
		for _, what := range []string{"swap", "dup", "src", "lazykeys"} {
			what := what
			c.Canary(what, func(t *vh.T) {
				for {
					tb := newTable(t.Rng, 6, true)
					sp, _ := tb.grid.GetAttribute(tb.cols[len(tb.cols)-1])
					base.Shuffle(tb.grid)
					tb.load(t)
					lz, _ := base.LazySort(tb.grid, base.Ascending, []base.AttributeSpec{sp})
					lazy := tb.rows(lz)
					k := []int{len(tb.cols)}
					t.Log(vh.Ev{"e": "LazySort", "keys": k, "asc": true, "out": lazy, "src": tb.rows(tb.grid), "cols": true})
					out, _ := base.Sort(tb.grid, base.Ascending, []base.AttributeSpec{sp})
					t.Log(vh.Ev{"e": "Sort", "keys": k, "asc": true, "out": tb.rows(out), "lazy": lazy, "cols": true})
					return
				}
			}, func(evs []vh.Ev) []vh.Ev {
				o := evs[1]["out"].([]interface{})
				switch what {
				case "swap":
					o[0], o[1] = o[1], o[0]
				case "dup":
					o[0] = o[1]
				case "src":
					s := evs[1]["src"].([]interface{})
					s[0], s[1] = s[1], s[0]
				default:
					s := evs[2]["lazy"].([]interface{})
					s[0], s[1] = s[1], s[0]
				}
				return evs
			})
		}
	})
	vh.Register("C06", func(c *vh.Ctx) {
		for i := 0; i < c.N(300, 6000); i++ {
			c.Case("dense", arrangeCase(false, false))
			c.Case("view", arrangeCase(true, false))
		}
		for i := 0; i < c.N(16, 200); i++ {
			c.Case("many", arrangeCase(i%2 == 1, true))
		}
		for _, what := range []string{"dup", "short", "stray"} {
			what := what
			c.Canary(what, func(t *vh.T) {
				tb := newTable(t.Rng, 6, true)
				tb.load(t)
				out := base.Shuffle(tb.grid)
				t.Log(vh.Ev{"e": "Shuffle", "inplace": true, "out": tb.rows(out), "src": tb.rows(tb.grid), "cols": true})
				a, b := base.InstancesTrainTestSplit(tb.grid, 0.5)
				t.Log(vh.Ev{"e": "Split", "inplace": true, "train": tb.rows(a), "test": tb.rows(b), "src": tb.rows(tb.grid), "cols": true})
				s := base.SampleWithReplacement(tb.grid, 4)
				t.Log(vh.Ev{"e": "Sample", "n": 4, "out": tb.rows(s), "src": tb.rows(tb.grid), "cols": tb.sameCols(s)})
			}, func(evs []vh.Ev) []vh.Ev {
				switch what {
				case "dup":
					evs[1]["out"].([]interface{})[0] = evs[1]["out"].([]interface{})[1]
				case "short":
					a := evs[2]["train"].([]interface{})
					b := evs[2]["test"].([]interface{})
					if len(a) > 0 {
						evs[2]["train"] = a[1:]
					} else {
						evs[2]["test"] = b[1:]
					}
				default:
					evs[3]["out"].([]interface{})[0] = []int{1, 1}
				}
				return evs
			})
		}
	})
}
