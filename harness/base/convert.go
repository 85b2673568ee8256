package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	dataframe "github.com/rocketlaunchr/dataframe-go"
	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/verifdrv/gridkit"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
	"gonum.org/v1/gonum/mat"
)

// Histories of conversions between data frames, matrices and grids.

type convOp struct {
	Op   string
	Kind string
	Form string
	Vals []int
	Sel  []int
	M    [][]int
	I, J int
	V, N int
	On   bool
}

var convFloats = []float64{0, 1, -1, 0.5, 1.0 / 3, 1e-9, -2.5e-7, 123456.7890123, 1e15 + 0.5, 1e300, -1e-300, math.Pi, 0.1 + 0.2,
	math.MaxFloat64, math.SmallestNonzeroFloat64, 99.999999999, 1 << 53, math.Inf(1), math.Inf(-1), 7, 8, 9.25, -0.0000005, 1e20, 3, 4, 5, 6, 2, 1.000000001}
var convInts = []int64{0, 1, -1, 10, 1000000, -999, 1 << 53, -(1 << 53), 1<<53 - 1, 42, 7, 8, 9, 100, 12345678901234, 3, 4, 5, 6, 2, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43}
var convText = []string{"a", "b", "", " ", "0", "1.5", "NaN", "é", "a b", "?", "A", ",", "\"", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "y1", "y2", "y3", "y4", "y5", "y6", "y7", "y8"}

// frameValue says what a series of some kind holds for pool entry v (0: missing), and how that reads in a trace.
func frameValue(kind string, v, salt int) (interface{}, string) {
	if v == 0 {
		if kind == "str" {
			return nil, "s:"
		}
		return nil, "missing"
	}
	if v > 30 { // one of many
		switch kind {
		case "str":
			return fmt.Sprintf("t%d", v), fmt.Sprintf("s:t%d", v)
		case "int":
			return int64(v), gridkit.Canon(float64(v))
		}
		return float64(v) / 4, gridkit.Canon(float64(v) / 4)
	}
	i := (v - 1 + salt) % 30
	switch kind {
	case "str":
		return convText[i], "s:" + convText[i]
	case "int":
		return convInts[i], gridkit.Canon(float64(convInts[i]))
	case "mixed":
		if v%2 == 0 {
			return convInts[i], gridkit.Canon(float64(convInts[i]))
		}
	}
	return convFloats[i], gridkit.Canon(convFloats[i])
}

func convToken(a base.Attribute, b []byte) string {
	if _, ok := a.(*base.FloatAttribute); ok {
		f := base.UnpackBytesToFloat(b)
		if math.IsNaN(f) {
			return "missing"
		}
		return gridkit.Canon(f)
	}
	return "s:" + a.GetStringFromSysVal(b)
}

func numToken(f float64) string {
	if math.IsNaN(f) {
		return "missing"
	}
	return gridkit.Canon(f)
}

// convAttrs lists the attributes in the order of names. A grid made from a frame may
// list them in another order, group by group; one made from a matrix may not.
func convAttrs(g base.FixedDataGrid, names []string) []base.Attribute {
	attrs := g.AllAttributes()
	if names == nil || len(names) != len(attrs) {
		return attrs
	}
	ret := []base.Attribute{}
	for _, n := range names {
		for _, a := range attrs {
			if a.GetName() == n {
				ret = append(ret, a)
			}
		}
	}
	return ret
}

func (c *conv) show() vh.Ev {
	g := c.grid
	attrs := convAttrs(g, c.names)
	specs := base.ResolveAttributes(g, attrs)
	cols := []vh.Ev{}
	for _, a := range attrs {
		kind := "str"
		if _, ok := a.(*base.FloatAttribute); ok {
			kind = "num"
		}
		cols = append(cols, vh.Ev{"name": a.GetName(), "kind": kind})
	}
	n, rows := g.Size()
	cells, mapped := [][]string{}, [][]string{}
	for i := 0; i < rows; i++ {
		r := []string{}
		for k, s := range specs {
			r = append(r, convToken(attrs[k], g.Get(s, i)))
		}
		cells = append(cells, r)
	}
	must(g.MapOverRows(specs, func(row [][]byte, no int) (bool, error) {
		if no != len(mapped) {
			return false, fmt.Errorf("row %d after %d rows", no, len(mapped))
		}
		r := []string{}
		for k := range specs {
			r = append(r, convToken(attrs[k], row[k]))
		}
		mapped = append(mapped, r)
		return true, nil
	}))
	classes := []string{}
	for _, a := range g.AllClassAttributes() {
		classes = append(classes, a.GetName())
	}
	sort.Strings(classes)
	return vh.Ev{"cols": cols, "size": []int{n, rows}, "cells": cells, "mapped": mapped, "classes": classes}
}

type conv struct {
	df    *dataframe.DataFrame
	kinds []string
	vals  [][]string // rows of tokens
	salt  int
	grid  base.FixedDataGrid
	names []string // of the frame the grid was made from, nil for matrices
}

// frameRows reads the caller's frame again.
func (c *conv) frameRows() [][]string {
	rows := [][]string{}
	for i := 0; i < c.df.NRows(); i++ {
		r := []string{}
		for j, s := range c.df.Series {
			var tok string
			switch v := s.Value(i).(type) {
			case nil:
				tok = "missing"
				if c.kinds[j] == "str" {
					tok = "s:"
				}
			case string:
				tok = "s:" + v
			case int64:
				tok = gridkit.Canon(float64(v))
			case float64:
				tok = gridkit.Canon(v)
			}
			r = append(r, tok)
		}
		rows = append(rows, r)
	}
	return rows
}

func (c *conv) logFrame(t *vh.T) {
	cols := []vh.Ev{}
	for j, n := range c.df.Names() {
		k := "num"
		if c.kinds[j] == "str" {
			k = "str"
		}
		cols = append(cols, vh.Ev{"name": n, "kind": k})
	}
	vals := [][]string{}
	for _, r := range c.vals {
		vals = append(vals, append([]string{}, r...))
	}
	t.Log(vh.Ev{"e": "Frame", "cols": cols, "rows": vals})
}

func conversions(t *vh.T, ops []convOp) {
	c := &conv{df: dataframe.NewDataFrame(), salt: t.Rng.Intn(30), vals: [][]string{}}
	dirty := true
	for _, op := range ops {
		switch op.Op {
		case "Series":
			mixed := op.Kind == "mixed" || op.Kind == "labels"
			if op.Kind == "labels" { // a series of any kind, of strings
				op.Kind = "str"
			}
			name := fmt.Sprintf("%s%d", []string{"col", "x y", "0", "é"}[t.Rng.Intn(4)], len(c.kinds))
			vals := []interface{}{}
			for i, v := range op.Vals {
				val, tok := frameValue(op.Kind, v, c.salt)
				vals = append(vals, val)
				c.vals[i] = append(c.vals[i], tok)
			}
			var s dataframe.Series
			switch {
			case mixed:
				s = dataframe.NewSeriesMixed(name, nil, vals...)
			case op.Kind == "float":
				s = dataframe.NewSeriesFloat64(name, nil, vals...)
			case op.Kind == "int":
				s = dataframe.NewSeriesInt64(name, nil, vals...)
			default:
				s = dataframe.NewSeriesString(name, nil, vals...)
			}
			if len(c.df.Series) == 0 {
				c.df = dataframe.NewDataFrame(s)
			} else {
				must(c.df.AddSeries(s, nil))
			}
			c.kinds = append(c.kinds, op.Kind)
			dirty = true
		case "Row":
			vals, toks := []interface{}{}, []string{}
			for j, v := range op.Vals {
				val, tok := frameValue(c.kinds[j], v, c.salt)
				vals, toks = append(vals, val), append(toks, tok)
			}
			c.df.Append(nil, vals...)
			c.vals = append(c.vals, toks)
			dirty = true
		case "Set":
			val, tok := frameValue(c.kinds[op.J-1], op.V, c.salt)
			c.df.Series[op.J-1].Update(op.I-1, val)
			c.vals[op.I-1][op.J-1] = tok
			dirty = true
		case "Grid":
			if dirty {
				c.logFrame(t)
				dirty = false
			}
			c.grid = base.ConvertDataFrameToInstances(c.df, op.J-1)
			c.names = append([]string{}, c.df.Names()...)
			t.Log(vh.Ev{"e": "ToGrid", "cls": op.J, "grid": c.show(), "after": c.frameRows()})
		case "Matrix":
			m, toks := mat.NewDense(len(op.M), op.N, nil), [][]string{}
			if t.Rng.Intn(3) == 0 { // the upper left part of a bigger one
				m = mat.NewDense(len(op.M)+t.Rng.Intn(3), op.N+t.Rng.Intn(3), nil)
				rs, cs := m.Dims()
				for k := 0; k < rs*cs; k++ {
					m.Set(k/cs, k%cs, 99)
				}
			}
			for i, r := range op.M {
				ts := []string{}
				for j, v := range r {
					f := math.NaN()
					if v > 0 {
						f = convFloats[(v-1+c.salt)%30]
						if v > 30 {
							f = float64(v) / 4
						}
					}
					m.Set(i, j, f)
					ts = append(ts, numToken(f))
				}
				toks = append(toks, ts)
			}
			c.grid, c.names = base.InstancesFromMat64(len(op.M), op.N, m), nil
			t.Log(vh.Ev{"e": "FromMatrix", "m": toks, "n": op.N, "grid": c.show()})
		case "Mark":
			if c.grid == nil {
				continue
			}
			a := convAttrs(c.grid, c.names)[op.J-1]
			res := vh.TryErr(func() error {
				if op.On {
					return classy(c.grid).AddClassAttribute(a)
				}
				return classy(c.grid).RemoveClassAttribute(a)
			})
			t.Log(vh.Ev{"e": "Mark", "j": op.J, "on": op.On, "out": res, "grid": c.show()})
			out := base.NewFloatAttribute("no such attribute")
			res = vh.TryErr(func() error {
				if t.Rng.Intn(2) == 0 {
					_, err := c.grid.GetAttribute(out)
					return err
				}
				if op.On {
					return classy(c.grid).AddClassAttribute(out)
				}
				return classy(c.grid).RemoveClassAttribute(out)
			})
			if res != "ok" {
				res = "error"
			}
			t.Log(vh.Ev{"e": "Stranger", "out": res, "grid": c.show()})
		case "Rows":
			if c.grid == nil {
				continue
			}
			c.rows(t, op)
		}
		if c.grid != nil && t.Rng.Intn(4) == 0 {
			t.Log(vh.Ev{"e": "Show", "grid": c.show()})
		}
	}
	if dirty {
		c.logFrame(t)
	}
}

type classMarker interface {
	AddClassAttribute(base.Attribute) error
	RemoveClassAttribute(base.Attribute) error
}

func classy(g base.FixedDataGrid) classMarker { return g.(classMarker) }

// apart copies a grid into one that keeps every column in a group of its own.
func apart(g base.FixedDataGrid) base.FixedDataGrid {
	d := base.NewDenseInstances()
	from, to := []base.AttributeSpec{}, []base.AttributeSpec{}
	for i, a := range g.AllAttributes() {
		group := fmt.Sprintf("group %d", i)
		must(d.CreateAttributeGroup(group, 8))
		as, err := d.AddAttributeToAttributeGroup(a, group)
		must(err)
		s, err := g.GetAttribute(a)
		must(err)
		from, to = append(from, s), append(to, as)
	}
	_, rows := g.Size()
	must(d.Extend(rows))
	for i := 0; i < rows; i++ {
		for k := range from {
			d.Set(to[k], i, append([]byte{}, g.Get(from[k], i)...))
		}
	}
	return d
}

func (c *conv) rows(t *vh.T, op convOp) {
	attrs := convAttrs(c.grid, c.names)
	sel := []base.Attribute{}
	for _, j := range op.Sel {
		sel = append(sel, attrs[j-1])
	}
	g, at := c.grid, []int{}
	_, n := g.Size()
	for i := 0; i < n; i++ {
		at = append(at, i+1)
	}
	if op.Form == "view" && n > 0 {
		order := []int{}
		at = at[:0]
		for i := 0; i < 1+t.Rng.Intn(6); i++ {
			r := t.Rng.Intn(n)
			order, at = append(order, r), append(at, r+1)
		}
		g = base.NewInstancesViewFromVisible(g, order, attrs)
	} else if t.Rng.Intn(3) == 0 {
		g = apart(g)
	}
	all, single := [][]string{}, [][]string{}
	line := func(m *mat.Dense) []string {
		r, k := m.Dims()
		if r != 1 || k != len(sel) {
			return []string{fmt.Sprintf("%d by %d", r, k)}
		}
		ts := []string{}
		for j := 0; j < k; j++ {
			ts = append(ts, numToken(m.At(0, j)))
		}
		return ts
	}
	var ms []*mat.Dense
	res := vh.TryErr(func() (err error) { ms, err = base.ConvertAllRowsToMat64(sel, g); return })
	if res != "ok" && !strings.HasPrefix(res, "panic") {
		res = "error"
	}
	for _, m := range ms {
		all = append(all, line(m))
	}
	for i := range at {
		var m *mat.Dense
		one := vh.TryErr(func() (err error) { m, err = base.ConvertRowToMat64(sel, g, i); return })
		if one == "ok" {
			single = append(single, line(m))
		} else if strings.HasPrefix(one, "panic") || res == "ok" {
			res = one // the two don't agree
		}
	}
	if res == "error" && len(single) > 0 {
		res = "rows converted singly only"
	}
	t.Log(vh.Ev{"e": "Rows", "sel": op.Sel, "at": at, "res": res, "all": all, "single": single})
}

// largeConversions: a history with many rows, columns and labels.
func largeConversions(rng *rand.Rand) []convOp {
	cols, rows := 2+rng.Intn(14), []int{20, 120, 257, 300}[rng.Intn(4)]
	var ops []convOp
	kinds := make([]string, cols)
	for j := range kinds {
		kinds[j] = []string{"str", "float", "int", "mixed", "float", "labels"}[rng.Intn(6)]
		ops = append(ops, convOp{Op: "Series", Kind: kinds[j]})
	}
	late := 5 + rng.Intn(30)
	for i := 0; i < rows; i++ {
		r := convOp{Op: "Row"}
		for _, kind := range kinds {
			v := rng.Intn(1000)
			if (kind == "mixed" || kind == "labels") && i < late && i < rows-1 { // starts late
				r.Vals = append(r.Vals, 0)
				continue
			}
			if rng.Intn(4) > 0 || kind == "labels" {
				v = 31 + i
			}
			r.Vals = append(r.Vals, v)
		}
		ops = append(ops, r)
	}
	ops = append(ops, convOp{Op: "Grid", J: 1 + rng.Intn(cols)})
	var nums []int
	for j := range kinds {
		if kinds[j] != "str" && kinds[j] != "labels" {
			nums = append(nums, j+1)
		}
	}
	if len(nums) > 0 {
		ops = append(ops, convOp{Op: "Rows", Sel: nums}, convOp{Op: "Rows", Sel: []int{nums[len(nums)-1], nums[0]}, Form: "view"})
	}
	m := convOp{Op: "Matrix", N: 1 + rng.Intn(20)}
	for i := 0; i < rows; i++ {
		r := make([]int, m.N)
		for j := range r {
			r[j] = rng.Intn(2000)
		}
		m.M = append(m.M, r)
	}
	ops = append(ops, m)
	var sel []int
	for _, j := range rng.Perm(m.N) {
		sel = append(sel, j+1)
	}
	return append(ops, convOp{Op: "Rows", Sel: sel}, convOp{Op: "Mark", J: 1 + rng.Intn(m.N), On: true})
}

func init() {
	vh.Register("C39", func(c *vh.Ctx) {
		for i := 0; i < c.N(12, 120); i++ {
			c.Case("large", func(t *vh.T) { conversions(t, largeConversions(t.Rng)) })
		}
		for i, raw := range c.Scenarios("convert") {
			var ops []convOp
			must(json.Unmarshal(raw, &ops))
			c.Case("history", func(t *vh.T) { conversions(t, ops) })
			if i < 4 {
				what := []string{"cell", "order", "class", "row"}[i]
				c.Canary(what, func(t *vh.T) {
					conversions(t, []convOp{{Op: "Series", Kind: "float"}, {Op: "Series", Kind: "str"}, {Op: "Row", Vals: []int{5, 6}}, {Op: "Row", Vals: []int{7, 8}},
						{Op: "Grid", J: 2}, {Op: "Rows", Sel: []int{1, 1}}})
				}, func(evs []vh.Ev) []vh.Ev {
					at := func(e string) vh.Ev {
						for _, ev := range evs {
							if ev["e"] == e {
								return ev
							}
						}
						panic(e)
					}
					g := at("ToGrid")["grid"].(map[string]interface{})
					switch what {
					case "cell":
						g["cells"].([]interface{})[1].([]interface{})[0] = "12.5"
					case "order":
						r := g["mapped"].([]interface{})
						r[0], r[1] = r[1], r[0]
					case "class":
						g["classes"] = []interface{}{"other"}
					default:
						r := at("Rows")["all"].([]interface{})
						at("Rows")["all"] = r[:1]
					}
					return evs
				})
			}
		}
	})
}
