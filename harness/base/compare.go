package main

import (
	"fmt"
	"math/rand"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

type cmpAttr struct {
	typ    string
	name   string
	labels []string
}

type cmpGrid struct {
	attrs []cmpAttr
	group []string
	rows  [][]int
	dense bool
}

func (a cmpAttr) make() base.Attribute {
	switch a.typ {
	case "cat":
		c := base.NewCategoricalAttribute()
		c.SetName(a.name)
		for _, l := range a.labels {
			c.GetSysValFromString(l)
		}
		return c
	case "bin":
		return base.NewBinaryAttribute(a.name)
	}
	return base.NewFloatAttribute(a.name)
}

func (a cmpAttr) ev() vh.Ev {
	l := a.labels
	if l == nil {
		l = []string{}
	}
	return vh.Ev{"type": a.typ, "name": a.name, "labels": l}
}

func (g *cmpGrid) ev() vh.Ev {
	as := make([]vh.Ev, 0)
	for _, a := range g.attrs {
		as = append(as, a.ev())
	}
	return vh.Ev{"attrs": as, "group": g.group, "rows": g.rows, "dense": g.dense}
}

func (g *cmpGrid) clone() *cmpGrid {
	r := &cmpGrid{dense: g.dense}
	for _, a := range g.attrs {
		a.labels = append([]string(nil), a.labels...)
		r.attrs = append(r.attrs, a)
	}
	r.group = append([]string{}, g.group...)
	r.rows = make([][]int, 0)
	for _, x := range g.rows {
		r.rows = append(r.rows, append([]int{}, x...))
	}
	return r
}

// build makes the real grid.
func (g *cmpGrid) build() (base.FixedDataGrid, []base.Attribute) {
	d := base.NewDenseInstances()
	var as []base.Attribute
	made := map[string]bool{}
	for i, a := range g.attrs {
		at := a.make()
		as = append(as, at)
		n := g.group[i]
		if n[0] == '#' {
			d.AddAttribute(at)
			continue
		}
		if !made[n] {
			made[n] = true
			sz := 8
			if a.typ == "bin" {
				sz = 0
			}
			if err := d.CreateAttributeGroup(n, sz); err != nil {
				panic(err)
			}
		}
		if _, err := d.AddAttributeToAttributeGroup(at, n); err != nil {
			panic(err)
		}
	}
	if len(g.rows) > 0 {
		d.Extend(len(g.rows))
	}
	for i, at := range as {
		sp, err := d.GetAttribute(at)
		if err != nil {
			panic(err)
		}
		for r, row := range g.rows {
			switch g.attrs[i].typ {
			case "cat":
				d.Set(sp, r, base.PackU64ToBytes(uint64(row[i])))
			case "bin":
				d.Set(sp, r, []byte{byte(row[i])})
			default:
				d.Set(sp, r, base.PackFloatToBytes(float64(row[i])))
			}
		}
	}
	if g.dense {
		return d, as
	}
	sel := make([]int, len(g.rows))
	for i := range sel {
		sel[i] = i
	}
	return base.NewInstancesViewFromVisible(d, sel, as), as
}

func randGrid(rng *rand.Rand) *cmpGrid {
	g := &cmpGrid{dense: true, group: []string{}, rows: [][]int{}}
	n := 1 + rng.Intn(5)
	style := rng.Intn(3) // 0: default groups, 1: named, 2: mixed
	for i := 0; i < n; i++ {
		a := cmpAttr{typ: []string{"float", "cat", "bin"}[rng.Intn(3)], name: fmt.Sprintf("n%d", rng.Intn(6))}
		for _, b := range g.attrs {
			if a.name == b.name {
				a.name = fmt.Sprintf("m%d", i)
			}
		}
		if a.typ == "cat" {
			labels := 2 + rng.Intn(2)
			if rng.Intn(4) == 0 {
				labels = 5 + rng.Intn(30)
			}
			for j := 0; j < labels; j++ {
				a.labels = append(a.labels, fmt.Sprintf("l%d", j))
			}
		}
		g.attrs = append(g.attrs, a)
		gr := "#" + a.typ
		if a.typ != "cat" && (style == 1 || style == 2 && rng.Intn(2) == 0) {
			gr = fmt.Sprintf("g%d%s", rng.Intn(2), a.typ)
		}
		g.group = append(g.group, gr)
	}
	rows := rng.Intn(4)
	if rng.Intn(30) == 0 {
		rows = 250 + rng.Intn(100)
	}
	for r := 0; r < rows; r++ {
		row := make([]int, n)
		for i := range row {
			row[i] = rng.Intn(2)
		}
		g.rows = append(g.rows, row)
	}
	return g
}

// mutate changes one thing; it says what.
func (g *cmpGrid) mutate(rng *rand.Rand) string {
	i := rng.Intn(len(g.attrs))
	switch rng.Intn(9) {
	case 0:
		if len(g.rows) > 0 {
			r := rng.Intn(len(g.rows))
			g.rows[r][i] ^= 1
			return "cell"
		}
	case 1:
		row := make([]int, len(g.attrs))
		g.rows = append(g.rows, row)
		return "row added"
	case 2:
		if len(g.rows) > 0 {
			g.rows = g.rows[:len(g.rows)-1]
			return "row removed"
		}
	case 3:
		g.attrs[i].name += "x"
		return "renamed"
	case 4:
		if g.attrs[i].typ == "cat" {
			l := g.attrs[i].labels
			switch rng.Intn(3) {
			case 0:
				j := rng.Intn(len(l) - 1)
				l[j], l[j+1] = l[j+1], l[j]
			case 1:
				g.attrs[i].labels = append(l, "extra")
			default:
				l[rng.Intn(len(l))] = "other"
			}
			return "labels"
		}
		if g.attrs[i].typ == "float" {
			g.attrs[i].typ = "cat"
			g.attrs[i].labels = []string{"l0", "l1"}
			g.group[i] = "#cat"
			return "type"
		}
	case 5:
		a := cmpAttr{typ: g.attrs[i].typ, name: fmt.Sprintf("added%d", len(g.attrs)), labels: g.attrs[i].labels}
		g.attrs = append(g.attrs, a)
		g.group = append(g.group, g.group[i])
		for r := range g.rows {
			g.rows[r] = append(g.rows[r], 0)
		}
		return "attribute added"
	case 6:
		if len(g.attrs) > 1 {
			g.attrs = g.attrs[:len(g.attrs)-1]
			g.group = g.group[:len(g.group)-1]
			for r := range g.rows {
				g.rows[r] = g.rows[r][:len(g.rows[r])-1]
			}
			return "attribute removed"
		}
	case 7:
		if g.attrs[i].typ != "cat" {
			g.group[i] = "moved" + g.attrs[i].typ
			return "regrouped"
		}
	case 8:
		g.dense = false
		return "view"
	}
	return "nothing"
}

func indices(as []base.Attribute, in []base.Attribute) []int {
	out := make([]int, 0)
	for _, a := range as {
		k := -1
		for i, b := range in {
			if a == b {
				k = i + 1
			}
		}
		out = append(out, k)
	}
	return out
}

func (g *cmpGrid) same(o *cmpGrid) bool {
	return fmt.Sprint(g.attrs, g.rows) == fmt.Sprint(o.attrs, o.rows)
}

func init() {
	vh.Register("C08", func(c *vh.Ctx) {
		pair := func(rng *rand.Rand, muts int) (*cmpGrid, *cmpGrid, []string) {
			a := randGrid(rng)
			b := a.clone()
			var what []string
			for i := 0; i < muts; i++ {
				what = append(what, b.mutate(rng))
			}
			if rng.Intn(2) == 0 {
				a, b = b, a
			}
			return a, b, what
		}
		rel := func(muts int) func(t *vh.T) {
			return func(t *vh.T) {
				a, b, what := pair(t.Rng, muts)
				t.Note("mutation", what)
				ga, as := a.build()
				gb, bs := b.build()
				t.Log(vh.Ev{"e": "Grids", "g": []vh.Ev{a.ev(), b.ev()}})
				m := make([][]bool, len(as))
				for i := range as {
					m[i] = make([]bool, len(bs))
					for j := range bs {
						m[i][j] = as[i].Equals(bs[j])
					}
				}
				t.Log(vh.Ev{"e": "AttrEq", "out": m})
				t.Log(vh.Ev{"e": "Strict", "out": base.CheckStrictlyCompatible(ga, gb)})
				// names within a grid may not be unique in storage order: read attributes as the grid reports them
				out := base.CheckCompatible(ga, gb)
				if a.plain() && b.plain() {
					t.Log(vh.Ev{"e": "Loose", "isnil": out == nil, "out": indices(out, as)})
				}
				t.Log(vh.Ev{"e": "Intersect", "out": indices(base.AttributeIntersect(as, bs), as)})
				t.Log(vh.Ev{"e": "Difference", "out": indices(base.AttributeDifference(as, bs), as)})
				if a.same(b) {
					t.Log(vh.Ev{"e": "Equal", "out": base.InstancesAreEqual(ga, gb)})
				}
			}
		}
		for i := 0; i < c.N(700, 12000); i++ {
			c.Case("relations", rel(i%3))
		}
		for i := 0; i < c.N(100, 1000); i++ {
			c.Case("unequal", func(t *vh.T) {
				var a, b *cmpGrid
				for {
					var what []string
					a, b, what = pair(t.Rng, 1)
					if !a.same(b) {
						t.Note("mutation", what)
						break
					}
				}
				ga, _ := a.build()
				gb, _ := b.build()
				t.Log(vh.Ev{"e": "Grids", "g": []vh.Ev{a.ev(), b.ev()}})
				t.Log(vh.Ev{"e": "Equal", "out": base.InstancesAreEqual(ga, gb)})
			})
		}
		for _, what := range []string{"AttrEq", "Strict", "Intersect", "Equal"} {
			what := what
			c.Canary(what, func(t *vh.T) {
				a := randGrid(t.Rng)
				b := a.clone()
				ga, as := a.build()
				gb, bs := b.build()
				t.Log(vh.Ev{"e": "Grids", "g": []vh.Ev{a.ev(), b.ev()}})
				switch what {
				case "AttrEq":
					t.Log(vh.Ev{"e": "AttrEq", "out": [][]bool{{!as[0].Equals(bs[0])}}})
				case "Strict":
					t.Log(vh.Ev{"e": "Strict", "out": !base.CheckStrictlyCompatible(ga, gb)})
				case "Intersect":
					t.Log(vh.Ev{"e": "Intersect", "out": []int{99}})
				default:
					t.Log(vh.Ev{"e": "Equal", "out": !base.InstancesAreEqual(ga, gb)})
				}
			}, func(evs []vh.Ev) []vh.Ev { return evs })
		}
	})
}

// plain: the grid reports its attributes in the order they were added (one storage group).
func (g *cmpGrid) plain() bool {
	for _, n := range g.group {
		if n != g.group[0] {
			return false
		}
	}
	return true
}
