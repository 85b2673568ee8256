package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// Numeric values in increasing order, with the printed form two decimals give; some print alike.
var partFloats = []float64{-2, -1.5, -1, -0.25, 0, 0.25, 0.5, 0.501, 0.75, 1, 1.001, 1.004, 2, 3, 17}
var partNames = []string{"-2.00", "-1.50", "-1.00", "-0.25", "0.00", "0.25", "0.50", "0.50", "0.75", "1.00", "1.00", "1.00", "2.00", "3.00", "17.00"}
var partLabels = []string{"x", "yy", "z z", "0", "", " x", "X", "x "}

// labels of a class or feature: the plain ones, and for the larger tables many more.
func partLabelsFor(rows int) []string {
	out := append([]string{}, partLabels...)
	for i := 0; rows > 100 && i < 300-rows/4; i++ {
		out = append(out, fmt.Sprintf("label %d", i))
	}
	return out
}

type part struct {
	grid  base.FixedDataGrid
	cols  []base.Attribute
	kinds []int // 0 float, 1 categorical, 2 binary
	cls   int   // 1-based
	labs  []string
}

func (p *part) cell(k int, b []byte) int {
	switch p.kinds[k] {
	case 0:
		f := base.UnpackBytesToFloat(b)
		for i, v := range partFloats {
			if v == f {
				return i + 1
			}
		}
		if f != f { // not a number, which is above nothing
			return len(partFloats) + 1
		}
	case 1:
		if u := base.UnpackBytesToU64(b); int(u) < len(p.labs) {
			return 101 + int(u)
		}
	case 2:
		return 91 + int(b[0])
	}
	return vh.BadInt
}

func (p *part) idx(a base.Attribute) int {
	for i, b := range p.cols {
		if a.Equals(b) {
			return i + 1
		}
	}
	return -1
}

// read gives the rows of g in the columns of the table except drop (1-based, 0: none).
func (p *part) read(g base.FixedDataGrid, drop int) [][]int {
	_, n := g.Size()
	out := make([][]int, n)
	for k, a := range p.cols {
		if k+1 == drop {
			continue
		}
		sp, err := g.GetAttribute(a)
		if err != nil {
			return [][]int{{vh.BadInt}}
		}
		for r := range out {
			out[r] = append(out[r], p.cell(k, g.Get(sp, r)))
		}
	}
	for r := range out {
		if out[r] == nil {
			out[r] = []int{}
		}
	}
	return out
}

func newPart(rng *rand.Rand, rows int, clsKind int, view bool) *part {
	p := &part{labs: partLabelsFor(rows)}
	g := base.NewDenseInstances()
	n := 2 + rng.Intn(3)
	p.cls = 1 + rng.Intn(n)
	for k := 0; k < n; k++ {
		kind := rng.Intn(3)
		if k+1 == p.cls {
			kind = clsKind
		}
		name := fmt.Sprintf("k%d", k)
		var a base.Attribute
		switch kind {
		case 0:
			a = base.NewFloatAttribute(name)
		case 1:
			c := base.NewCategoricalAttribute()
			c.SetName(name)
			for _, l := range p.labs {
				c.GetSysValFromString(l)
			}
			a = c
		default:
			a = base.NewBinaryAttribute(name)
		}
		p.cols, p.kinds = append(p.cols, a), append(p.kinds, kind)
		g.AddAttribute(a)
	}
	g.AddClassAttribute(p.cols[p.cls-1])
	g.Extend(rows)
	few := 1 + rng.Intn(6)
	nan := rng.Intn(4) == 0
	base0 := 0
	if rng.Intn(3) == 0 {
		base0 = rng.Intn(len(p.labs) - few)
	} else if rows > 100 {
		few = len(p.labs)
	}
	off := rng.Intn(len(partFloats))
	for k, a := range p.cols {
		sp, _ := g.GetAttribute(a)
		for r := 0; r < rows; r++ {
			switch p.kinds[k] {
			case 0:
				f := partFloats[(off+rng.Intn(few+1))%len(partFloats)]
				if nan && rng.Intn(6) == 0 && k+1 != p.cls {
					f = math.NaN()
				}
				g.Set(sp, r, base.PackFloatToBytes(f))
			case 1:
				g.Set(sp, r, base.PackU64ToBytes(uint64(base0+rng.Intn(few))))
			default:
				g.Set(sp, r, []byte{byte(rng.Intn(2))})
			}
		}
	}
	p.grid = g
	if view && rows > 0 {
		sel := make([]int, 0)
		for i := 0; i < 1+rng.Intn(rows+2); i++ {
			sel = append(sel, rng.Intn(rows))
		}
		p.grid = base.NewInstancesViewFromVisible(g, sel, g.AllAttributes())
	}
	return p
}

func (p *part) load(t *vh.T) {
	ord := make([]int, 100+len(p.labs))
	nam := make([][]string, len(p.cols))
	for k := range nam {
		nam[k] = make([]string, len(ord))
		for i := range nam[k] {
			nam[k][i] = "?"
		}
		for i, s := range partNames {
			nam[k][i] = s
		}
		for i, s := range p.labs {
			nam[k][100+i] = s
		}
		nam[k][len(partFloats)], nam[k][90], nam[k][91] = "NaN", "0", "1"
	}
	for i := range partFloats {
		ord[i] = 2 * (i + 1)
	}
	t.Log(vh.Ev{"e": "Load", "rows": p.read(p.grid, 0), "ord": ord, "nam": nam, "cls": p.cls})
}

func (p *part) parts(m map[string]base.FixedDataGrid, k int) []vh.Ev {
	out := make([]vh.Ev, 0)
	names := make([]string, 0)
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		g := m[n]
		cols, cls := make([]int, 0), make([]int, 0)
		for _, a := range g.AllAttributes() {
			cols = append(cols, p.idx(a))
		}
		for _, a := range g.AllClassAttributes() {
			cls = append(cls, p.idx(a))
		}
		out = append(out, vh.Ev{"name": n, "rows": p.read(g, k), "cols": cols, "cls": cls})
	}
	return out
}

func counts(m map[string]int) []vh.Ev {
	out := make([]vh.Ev, 0)
	for n, v := range m {
		out = append(out, vh.Ev{"name": n, "n": v})
	}
	sort.Slice(out, func(i, j int) bool { return out[i]["name"].(string) < out[j]["name"].(string) })
	return out
}

func groups(m map[string]map[string]int) []vh.Ev {
	out := make([]vh.Ev, 0)
	for n, v := range m {
		out = append(out, vh.Ev{"name": n, "counts": counts(v)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i]["name"].(string) < out[j]["name"].(string) })
	return out
}

func partCase(clsKind int, view, many bool) func(t *vh.T) {
	return func(t *vh.T) {
		rng := t.Rng
		n := tabRows(rng)
		if many {
			n = 101 + rng.Intn(250)
		}
		p := newPart(rng, n, clsKind, view)
		p.load(t)
		for k, a := range p.cols {
			d := base.DecomposeOnAttributeValues(p.grid, a)
			t.Log(vh.Ev{"e": "Decompose", "k": k + 1, "parts": p.parts(d, k+1), "src": p.read(p.grid, 0)})
			t.Log(vh.Ev{"e": "DistBy", "k": k + 1, "out": groups(base.GetClassDistributionAfterSplit(p.grid, a))})
			if p.kinds[k] != 0 {
				continue
			}
			for i := 0; i < 2; i++ {
				j := rng.Intn(len(partFloats))
				thr, o := partFloats[j], 2*(j+1)
				if j+1 < len(partFloats) && rng.Intn(2) == 0 {
					thr, o = (partFloats[j]+partFloats[j+1])/2, o+1
				}
				d := base.DecomposeOnNumericAttributeThreshold(p.grid, a, thr)
				t.Log(vh.Ev{"e": "Threshold", "k": k + 1, "thr": o, "parts": p.parts(d, k+1), "src": p.read(p.grid, 0)})
				t.Log(vh.Ev{"e": "DistByThr", "k": k + 1, "thr": o, "out": groups(base.GetClassDistributionAfterThreshold(p.grid, a, thr))})
			}
		}
		t.Log(vh.Ev{"e": "Dist", "out": counts(base.GetClassDistribution(p.grid))})
		switch clsKind {
		case 0:
			t.Log(vh.Ev{"e": "DistHalves", "half": 14, "out": base.GetClassDistributionByBinaryFloatValue(p.grid)})
		case 1:
			codes := make([]int, len(p.labs))
			for i := range codes {
				codes[i] = 101 + i
			}
			t.Log(vh.Ev{"e": "DistCoded", "codes": codes, "out": base.GetClassDistributionByCategoricalValue(p.grid)})
		}
	}
}

func init() {
	vh.Register("C07", func(c *vh.Ctx) {
		for i := 0; i < c.N(150, 3000); i++ {
			for kind := 0; kind < 3; kind++ {
				c.Case("dense", partCase(kind, false, false))
			}
			c.Case("view", partCase(i%3, true, false))
		}
		for i := 0; i < c.N(8, 100); i++ {
			c.Case("many", partCase([]int{1, 1, 0, 2}[i%4], i%2 == 1, true))
		}
		for _, what := range []string{"drop", "name", "dist", "coded"} {
			what := what
			c.Canary(what, func(t *vh.T) {
				p := newPart(t.Rng, 8, 1, false)
				p.load(t)
				k := p.cls
				d := base.DecomposeOnAttributeValues(p.grid, p.cols[k-1])
				t.Log(vh.Ev{"e": "Decompose", "k": k, "parts": p.parts(d, k), "src": p.read(p.grid, 0)})
				t.Log(vh.Ev{"e": "Dist", "out": counts(base.GetClassDistribution(p.grid))})
				t.Log(vh.Ev{"e": "DistCoded", "codes": []int{101, 102, 103, 104, 105, 106, 107, 108}, "out": base.GetClassDistributionByCategoricalValue(p.grid)})
			}, func(evs []vh.Ev) []vh.Ev {
				ps := evs[1]["parts"].([]interface{})
				p0 := ps[0].(map[string]interface{})
				switch what {
				case "drop":
					p0["rows"] = p0["rows"].([]interface{})[1:]
				case "name":
					p0["name"] = "other"
				case "dist":
					d := evs[2]["out"].([]interface{})[0].(map[string]interface{})
					d["n"] = d["n"].(float64) + 1
				default:
					d := evs[3]["out"].([]interface{})
					d[0] = d[0].(float64) + 1
				}
				return evs
			})
		}
	})
}
