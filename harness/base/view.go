package main

import (
	"encoding/json"
	"errors"
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
	"gonum.org/v1/gonum/mat"
)

type viewSession struct {
	t     *vh.T
	dense *base.DenseInstances
	attrs []base.Attribute
	specs []base.AttributeSpec
	grids []base.FixedDataGrid
	toks  map[string]string
}

func viewAttr(i int) base.Attribute {
	if i%2 == 0 {
		return base.NewFloatAttribute(fmt.Sprintf("a%d", i/2)) // pairs share a name
	}
	a := base.NewCategoricalAttribute()
	a.SetName(fmt.Sprintf("a%d", i/2))
	return a
}

func (s *viewSession) tok(b []byte) string {
	if v, ok := s.toks[vh.Hex(b)]; ok {
		return v
	}
	return "?" + vh.Hex(b)
}

func (s *viewSession) bytes(tok string) []byte {
	b := tokBytes(tok, 8)
	s.toks[vh.Hex(b)] = tok
	return b
}

func (s *viewSession) idx(a base.Attribute) int {
	for i, b := range s.attrs {
		if a.GetName() == b.GetName() && a.GetType() == b.GetType() {
			return i + 1
		}
	}
	return -1
}

func (s *viewSession) project(g base.FixedDataGrid) vh.Ev {
	m, n := g.Size()
	at, cls, found := make([]int, 0), make([]int, 0), make([]int, 0)
	var specs []base.AttributeSpec
	for _, a := range g.AllAttributes() {
		at = append(at, s.idx(a))
		sp, err := g.GetAttribute(a)
		if err != nil {
			return vh.Ev{"n": -1, "m": m}
		}
		specs = append(specs, sp)
	}
	for _, a := range g.AllClassAttributes() {
		cls = append(cls, s.idx(a))
	}
	for i := range s.attrs {
		if _, err := g.GetAttribute(viewAttr(i)); err == nil {
			found = append(found, i+1)
		}
	}
	content := make([][]string, n)
	for r := 0; r < n; r++ {
		content[r] = make([]string, len(specs))
		for k, sp := range specs {
			content[r][k] = s.tok(g.Get(sp, r))
		}
	}
	oob := []string{"panic", "panic"}
	if len(specs) > 0 {
		oob[0] = vh.Try(func() { g.Get(specs[0], n) })
		oob[1] = vh.Try(func() { g.Get(specs[0], -1) })
	}
	return vh.Ev{"n": n, "m": m, "at": at, "cls": cls, "found": found, "content": content, "oob": oob}
}

func (s *viewSession) log(e vh.Ev) {
	var gs []vh.Ev
	for _, g := range s.grids {
		gs = append(gs, s.project(g))
	}
	e["grids"] = gs
	s.t.Log(e)
}

func ints(v interface{}) []int {
	out := make([]int, 0)
	if v == nil {
		return out
	}
	for _, x := range v.([]interface{}) {
		out = append(out, int(x.(float64)))
	}
	return out
}

func (s *viewSession) pick(as []int) []base.Attribute {
	r := make([]base.Attribute, 0)
	for _, a := range as {
		r = append(r, s.attrs[a-1])
	}
	return r
}

func (s *viewSession) base(rows, nattrs int, cls []int) [][]string {
	s.dense = base.NewDenseInstances()
	for i := 0; i < nattrs; i++ {
		a := viewAttr(i)
		s.attrs = append(s.attrs, a)
		s.specs = append(s.specs, s.dense.AddAttribute(a))
	}
	s.dense.Extend(rows)
	data := make([][]string, rows)
	for r := range data {
		data[r] = make([]string, nattrs)
		for a := range data[r] {
			data[r][a] = fmt.Sprintf("t%d.%d", r+1, a+1)
			s.dense.Set(s.specs[a], r, s.bytes(data[r][a]))
		}
	}
	for _, k := range cls {
		s.dense.AddClassAttribute(s.attrs[k-1])
	}
	s.grids = []base.FixedDataGrid{s.dense}
	return data
}

func (s *viewSession) do(o map[string]interface{}) {
	num := func(k string) int { v, _ := o[k].(float64); return int(v) }
	op := o["op"].(string)
	e := vh.Ev{"e": op}
	for k, v := range o {
		if k != "op" {
			e[k] = v
		}
	}
	switch op {
	case "End":
		s.copies()
		return
	case "Base":
		e["data"] = s.base(num("rows"), num("attrs"), ints(o["cls"]))
	case "Visible":
		rows := ints(o["rows"])
		for i := range rows {
			rows[i]--
		}
		s.grids = append(s.grids, base.NewInstancesViewFromVisible(s.grids[num("of")-1], rows, s.pick(ints(o["attrs"]))))
	case "FromRows":
		m := map[int]int{}
		for _, p := range o["map"].([]interface{}) {
			q := ints(p)
			m[q[0]-1] = q[1] - 1
		}
		s.grids = append(s.grids, base.NewInstancesViewFromRows(s.grids[num("of")-1], m))
	case "FromAttrs":
		s.grids = append(s.grids, base.NewInstancesViewFromAttrs(s.grids[num("of")-1], s.pick(ints(o["attrs"]))))
	case "Write":
		s.dense.Set(s.specs[num("a")-1], num("r")-1, s.bytes(o["v"].(string)))
	case "Mark":
		e["ok"] = s.grids[num("g")-1].AddClassAttribute(viewAttr(num("a")-1)) == nil
	case "Unmark":
		s.grids[num("g")-1].RemoveClassAttribute(viewAttr(num("a") - 1))
	default:
		panic(op)
	}
	s.log(e)
}

// copies makes full and empty in-memory copies of every grid, and scribbles over them.
func (s *viewSession) copies() {
	for i, g := range s.grids {
		full, empty := base.NewDenseCopy(g), base.NewStructuralCopy(g)
		o, x := s.project(full), s.project(empty)
		for _, g := range []*base.DenseInstances{full, empty} {
			g.Extend(1)
			_, n := g.Size()
			for _, a := range g.AllAttributes() {
				sp, err := g.GetAttribute(a)
				if err == nil {
					g.Set(sp, 0, s.bytes("scribble"))
					g.Set(sp, n-1, s.bytes("scribble"))
				}
				g.AddClassAttribute(a)
			}
		}
		s.log(vh.Ev{"e": "Copy", "of": i + 1, "full": o, "empty": x})
	}
}

func viewScenario(raw json.RawMessage) func(t *vh.T) {
	return func(t *vh.T) {
		var ops []map[string]interface{}
		if err := json.Unmarshal(raw, &ops); err != nil {
			panic(err)
		}
		s := &viewSession{t: t, toks: map[string]string{}}
		for _, o := range ops {
			s.do(o)
		}
	}
}

// manyViews stacks a few views over a long grid.
func manyViews(size int, first bool) func(t *vh.T) {
	return func(t *vh.T) {
		rng := t.Rng
		n := size
		if n > 100 {
			n += rng.Intn(300)
		}
		all := func(k int) []int {
			out := make([]int, k)
			for i := range out {
				out[i] = 1 + rng.Intn(n)
			}
			return out
		}
		swaps := [][]int{}
		for i := 0; i < n; i++ {
			if rng.Intn(3) > 0 {
				swaps = append(swaps, []int{i + 1, 1 + rng.Intn(n)})
			}
		}
		longer := [][]int{}
		for i := 0; i < n+1+rng.Intn(3); i++ {
			longer = append(longer, []int{i + 1, 1 + rng.Intn(n)})
		}
		rng.Shuffle(len(longer), func(i, j int) { longer[i], longer[j] = longer[j], longer[i] })
		ops := []map[string]interface{}{
			{"op": "Base", "rows": n, "attrs": 2, "cls": []int{2}},
			{"op": "Visible", "of": 1, "rows": all(n), "attrs": []int{2, 1}},
			{"op": "FromRows", "of": 1 + rng.Intn(2), "map": swaps},
			{"op": "FromRows", "of": 1 + rng.Intn(3), "map": longer},
			{"op": "Write", "r": n - rng.Intn(1+n/50), "a": 1, "v": "t0.1"},
			{"op": "Visible", "of": 3 + rng.Intn(2), "rows": all(10), "attrs": []int{1}},
			{"op": "Write", "r": 1 + rng.Intn(n), "a": 2, "v": "t0.2"},
			{"op": "End"},
		}
		if first {
			ops[5] = map[string]interface{}{"op": "FromAttrs", "of": 3, "attrs": []int{2}}
		}
		raw, err := json.Marshal(ops)
		if err != nil {
			panic(err)
		}
		viewScenario(raw)(t)
	}
}

var errMine = errors.New("visitor failed")

// iterate records one pass of MapOverRows over g with the visitor stopping at row stop (0: never) in the given way.
func iterate(t *vh.T, g base.FixedDataGrid, specs []base.AttributeSpec, stop int, how string) {
	_, n := g.Size()
	table := make([][]string, n)
	for r := 0; r < n; r++ {
		table[r] = make([]string, len(specs))
		for k, sp := range specs {
			table[r][k] = vh.Hex(g.Get(sp, r))
		}
	}
	t.Log(vh.Ev{"e": "Begin", "table": table})
	calls := 0
	res := "ok"
	p := vh.Try(func() {
		err := g.MapOverRows(specs, func(row [][]byte, r int) (bool, error) {
			calls++
			cells := make([]string, len(row))
			for k, b := range row {
				cells[k] = vh.Hex(b)
			}
			more, fails := true, false
			if calls == stop {
				more = how == "err+true"
				fails = how == "err+true" || how == "err+false"
			}
			if calls > n+5 {
				panic("runaway iteration")
			}
			t.Log(vh.Ev{"e": "Visit", "r": r + 1, "cells": cells, "more": more, "fails": fails})
			if fails {
				return more, errMine
			}
			return more, nil
		})
		if err != nil {
			res = "other"
			if err == errMine {
				res = "mine"
			}
		}
	})
	if p != "ok" {
		res = p
	}
	t.Log(vh.Ev{"e": "End", "res": res})
	t.Log(vh.Ev{"e": "Reset"})
}

func iterGrid(t *vh.T, kind string, many bool) base.FixedDataGrid {
	rng := t.Rng
	rows := rng.Intn(7)
	if rng.Intn(8) == 0 {
		rows = 40 + rng.Intn(30)
	}
	if many {
		rows = 1030 + rng.Intn(40)
	}
	if kind == "mat" {
		cols := 1 + rng.Intn(4)
		if rows == 0 {
			rows = 1
		}
		m := mat.NewDense(rows, cols, nil)
		for r := 0; r < rows; r++ {
			for k := 0; k < cols; k++ {
				m.Set(r, k, float64(rng.Intn(2000)-1000)/8)
			}
		}
		return base.InstancesFromMat64(rows, cols, m)
	}
	g := base.NewDenseInstances()
	var attrs []base.Attribute
	for i := 0; i < 2+rng.Intn(4); i++ {
		var a base.Attribute
		switch rng.Intn(4) {
		case 0:
			c := base.NewCategoricalAttribute()
			for _, l := range []string{"p", "q", "r"} {
				c.GetSysValFromString(l)
			}
			c.SetName(fmt.Sprintf("a%d", i))
			a = c
		case 1:
			a = base.NewBinaryAttribute(fmt.Sprintf("a%d", i))
		default:
			a = base.NewFloatAttribute(fmt.Sprintf("a%d", i))
		}
		attrs = append(attrs, a)
		g.AddAttribute(a)
	}
	g.AddClassAttribute(attrs[len(attrs)-1])
	g.Extend(rows)
	for _, sp := range base.ResolveAllAttributes(g) {
		for r := 0; r < rows; r++ {
			switch a := sp.GetAttribute().(type) {
			case *base.CategoricalAttribute:
				g.Set(sp, r, a.GetSysValFromString([]string{"p", "q", "r"}[rng.Intn(3)]))
			case *base.BinaryAttribute:
				g.Set(sp, r, []byte{byte(rng.Intn(2))})
			default:
				g.Set(sp, r, base.PackFloatToBytes(float64(rng.Intn(4))))
			}
		}
	}
	var out base.FixedDataGrid = g
	wrap := func() {
		_, n := out.Size()
		as := out.AllAttributes()
		var sub []base.Attribute
		for _, i := range rng.Perm(len(as))[:1+rng.Intn(len(as))] {
			sub = append(sub, as[i])
		}
		switch rng.Intn(3) {
		case 0:
			sel := make([]int, 0)
			for i := 0; n > 0 && i < rng.Intn(n+3); i++ {
				sel = append(sel, rng.Intn(n))
			}
			out = base.NewInstancesViewFromVisible(out, sel, sub)
		case 1:
			m := map[int]int{}
			for i := 0; i < n; i++ {
				if rng.Intn(2) == 0 {
					m[i] = rng.Intn(n)
				}
			}
			out = base.NewInstancesViewFromRows(out, m)
		default:
			out = base.NewInstancesViewFromAttrs(out, sub)
		}
	}
	filter := func() {
		if _, n := out.Size(); n == 0 {
			return
		}
		var f base.Filter
		switch rng.Intn(2) {
		case 0:
			bf := filters.NewBinaryConvertFilter()
			for _, a := range out.AllAttributes() {
				if rng.Intn(2) == 0 {
					bf.AddAttribute(a)
				}
			}
			f = bf
		default:
			ff := filters.NewFloatConvertFilter()
			for _, a := range out.AllAttributes() {
				if rng.Intn(2) == 0 {
					ff.AddAttribute(a)
				}
			}
			f = ff
		}
		f.Train()
		out = base.NewLazilyFilteredInstances(out, f)
	}
	switch kind {
	case "view":
		for i := 0; i < 1+rng.Intn(3); i++ {
			wrap()
		}
	case "filtered":
		for i := 0; i < rng.Intn(3); i++ {
			wrap()
		}
		filter()
	case "filterview":
		filter()
		wrap()
	}
	return out
}

func init() {
	vh.Register("C03", func(c *vh.Ctx) {
		sc := c.Scenarios("views")
		for _, raw := range sc {
			c.Case("history", viewScenario(raw))
		}
		for i := 0; i < c.N(4, 20); i++ {
			c.Case("many", manyViews(257, i%2 == 0))
			c.Case("longer", manyViews(1+i, i%2 == 0))
		}
		for i := 0; i < 4 && i < len(sc); i++ {
			for _, what := range []string{"content", "n", "cls"} {
				what := what
				c.Canary(what, viewScenario(sc[i]), func(evs []vh.Ev) []vh.Ev {
					for j := len(evs) - 1; j >= 0; j-- {
						gs := evs[j]["grids"].([]interface{})
						g := gs[len(gs)-1].(map[string]interface{})
						switch what {
						case "n":
							g["n"] = g["n"].(float64) + 1
							return evs
						case "cls":
							g["cls"] = append(g["cls"].([]interface{}), 77)
							return evs
						case "content":
							ct := g["content"].([]interface{})
							if len(ct) > 0 && len(ct[0].([]interface{})) > 0 {
								ct[0].([]interface{})[0] = "t9.9"
								return evs
							}
						}
					}
					return []vh.Ev{{"e": "Panic"}}
				})
			}
		}
	})
	vh.Register("C04", func(c *vh.Ctx) {
		one := func(kind string, many bool) func(t *vh.T) {
			return func(t *vh.T) {
				g := iterGrid(t, kind, many)
				t.Note("kind", kind)
				_, n := g.Size()
				all := base.ResolveAllAttributes(g)
				for pass := 0; pass < 5 && (pass < 2 || !many); pass++ {
					var specs []base.AttributeSpec
					for _, i := range t.Rng.Perm(len(all))[:t.Rng.Intn(len(all)+1)] {
						specs = append(specs, all[i])
					}
					if pass == 0 {
						specs = all
					}
					stop := 0
					if pass > 0 && n > 0 {
						stop = 1 + t.Rng.Intn(n)
					}
					iterate(t, g, specs, stop, []string{"none", "stop", "err+true", "err+false", "stop"}[pass])
				}
			}
		}
		for i := 0; i < c.N(150, 3000); i++ {
			for _, kind := range []string{"dense", "view", "filtered", "filterview", "mat"} {
				c.Case(kind, one(kind, false))
				if i < c.N(1, 10) {
					c.Case("many-"+kind, one(kind, true))
				}
			}
		}
		for _, what := range []string{"drop", "swap", "cells", "swallow"} {
			what := what
			c.Canary(what, func(t *vh.T) {
				g := base.InstancesFromMat64(3, 1, mat.NewDense(3, 1, []float64{1, 2, 3}))
				iterate(t, g, base.ResolveAllAttributes(g), 0, "none")
				iterate(t, g, base.ResolveAllAttributes(g), 2, "err+false")
			}, func(evs []vh.Ev) []vh.Ev {
				switch what {
				case "drop":
					return append(evs[:2:2], evs[3:]...)
				case "swap":
					evs[1], evs[2] = evs[2], evs[1]
				case "cells":
					evs[1]["cells"] = evs[2]["cells"]
				default:
					for _, e := range evs {
						if e["e"] == "End" {
							e["res"] = "ok"
						}
					}
				}
				return evs
			})
		}
	})
}
