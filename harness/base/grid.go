package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// Cell tokens: "z" is all zeroes, any other token is a fixed pattern of non-zero bytes.
func tokBytes(tok string, w int) []byte {
	if w == 0 {
		if tok == "z" {
			return []byte{0}
		}
		return []byte{1}
	}
	b := make([]byte, w)
	if tok == "z" {
		return b
	}
	h := fnv.New64a()
	h.Write([]byte(tok))
	x := h.Sum64()
	for i := range b {
		b[i] = byte(x>>(8*(uint(i)%8))) | 1
	}
	return b
}

func bytesTok(b []byte, w int, toks []string) string {
	if w == 0 {
		if len(b) != 1 {
			return "?"
		}
		if b[0] == 0 {
			return "z"
		}
		if b[0] == 1 {
			return "v1"
		}
		return "?"
	}
	for _, t := range toks {
		if vh.Hex(tokBytes(t, w)) == vh.Hex(b) {
			return t
		}
	}
	return "?" + vh.Hex(b)
}

var gridToks = []string{"z", "v1", "v2", "v3"}

type gridOp struct {
	Op   string
	K    string
	N    interface{}
	G    string
	W    int
	A    int
	R    int
	V    string
	name string
	n    int
}

func mkAttr(k, n string) base.Attribute {
	switch k {
	case "F":
		return base.NewFloatAttribute(n)
	case "B":
		return base.NewBinaryAttribute(n)
	}
	// The labels depend on the name's kind only, so that categorical attributes are compatible with each other.
	a := base.NewCategoricalAttribute()
	a.SetName(n)
	a.GetSysValFromString("x")
	a.GetSysValFromString("y")
	return a
}

func attrRec(a base.Attribute) vh.Ev {
	k := "C"
	switch a.(type) {
	case *base.FloatAttribute:
		k = "F"
	case *base.BinaryAttribute:
		k = "B"
	}
	return vh.Ev{"k": k, "n": a.GetName()}
}

func attrRecs(as []base.Attribute) []vh.Ev {
	r := make([]vh.Ev, 0)
	for _, a := range as {
		r = append(r, attrRec(a))
	}
	return r
}

type gridSession struct {
	t     *vh.T
	g     *base.DenseInstances
	attrs []base.Attribute
	specs []base.AttributeSpec
	width []int
	gw    map[string]int
}

func newGridSession(t *vh.T) *gridSession {
	return &gridSession{t: t, g: base.NewDenseInstances(), gw: map[string]int{}}
}

func readAll(g base.FixedDataGrid, specs []base.AttributeSpec, width []int) [][]string {
	_, rows := g.Size()
	out := make([][]string, len(specs))
	for i, s := range specs {
		out[i] = make([]string, rows)
		for r := 0; r < rows; r++ {
			tok := ""
			p := vh.Try(func() { tok = bytesTok(g.Get(s, r), width[i], gridToks) })
			if p != "ok" {
				tok = "!panic"
			}
			out[i][r] = tok
		}
	}
	return out
}

func fresh(a base.Attribute) base.Attribute {
	r := attrRec(a)
	return mkAttr(r["k"].(string), r["n"].(string))
}

func (s *gridSession) state() vh.Ev {
	cols, rows := s.g.Size()
	again := make([]base.AttributeSpec, len(s.attrs))
	ok := true
	for i, a := range s.attrs {
		sp, err := s.g.GetAttribute(fresh(a))
		if err != nil {
			ok = false
		}
		again[i] = sp
	}
	st := vh.Ev{"rows": rows, "ncols": cols, "attrs": attrRecs(s.g.AllAttributes()), "cls": attrRecs(s.g.AllClassAttributes()),
		"cells": readAll(s.g, s.specs, s.width)}
	if ok {
		st["again"] = readAll(s.g, again, s.width)
	} else {
		st["again"] = "lookup failed"
	}
	return st
}

func (s *gridSession) log(e vh.Ev) {
	e["st"] = s.state()
	s.t.Log(e)
}

func (s *gridSession) do(o map[string]interface{}) {
	str := func(k string) string { v, _ := o[k].(string); return v }
	num := func(k string) int { v, _ := o[k].(float64); return int(v) }
	e := vh.Ev{"e": str("op")}
	for k, v := range o {
		if k != "op" {
			e[k] = v
		}
	}
	switch str("op") {
	case "End":
		return
	case "NewGroup":
		err := s.g.CreateAttributeGroup(str("g"), num("w"))
		e["ok"] = err == nil
		if err == nil {
			s.gw[str("g")] = num("w")
		}
	case "AddAttr":
		a := mkAttr(str("k"), str("n"))
		var sp base.AttributeSpec
		ok := vh.Try(func() { sp = s.g.AddAttribute(a) }) == "ok"
		e["ok"] = ok
		if ok {
			w := 8
			if str("k") == "B" {
				w = 0
			}
			s.attrs, s.specs, s.width = append(s.attrs, a), append(s.specs, sp), append(s.width, w)
		}
	case "AddAttrTo":
		a := mkAttr(str("k"), str("n"))
		var sp base.AttributeSpec
		var err error
		ok := vh.Try(func() { sp, err = s.g.AddAttributeToAttributeGroup(a, str("g")) }) == "ok" && err == nil
		e["ok"] = ok
		if ok {
			s.attrs, s.specs, s.width = append(s.attrs, a), append(s.specs, sp), append(s.width, s.gw[str("g")])
		}
	case "Extend":
		e["ok"] = vh.TryErr(func() error { return s.g.Extend(num("n")) }) == "ok"
	case "Set":
		a, r := num("a")-1, num("r")-1
		e["ok"] = vh.Try(func() { s.g.Set(s.specs[a], r, tokBytes(str("v"), s.width[a])) }) == "ok"
	case "Mark":
		e["ok"] = s.g.AddClassAttribute(mkAttr(str("k"), str("n"))) == nil
	case "Unmark":
		e["ok"] = s.g.RemoveClassAttribute(mkAttr(str("k"), str("n"))) == nil
	case "Lookup":
		_, err := s.g.GetAttribute(mkAttr(str("k"), str("n")))
		e["ok"] = err == nil
	default:
		panic("unknown op " + str("op"))
	}
	s.log(e)
}

func hasOddWidth(s *gridSession) bool {
	for _, w := range s.width {
		if w != 0 && w != 8 {
			return true
		}
	}
	return false
}

func (s *gridSession) copies() {
	for _, full := range []bool{false, true} {
		if hasOddWidth(s) {
			continue // copies choose default groups; only default widths are meaningful
		}
		_, rows := s.g.Size()
		if full && rows == 0 {
			continue
		}
		var cp *base.DenseInstances
		if full {
			cp = base.NewDenseCopy(s.g)
		} else {
			cp = base.NewStructuralCopy(s.g)
		}
		_, crows := cp.Size()
		specs := make([]base.AttributeSpec, len(s.attrs))
		for i, a := range s.attrs {
			sp, err := cp.GetAttribute(fresh(a))
			if err != nil {
				s.t.Log(vh.Ev{"e": "CopyLacksAttribute"})
				return
			}
			specs[i] = sp
		}
		rec := vh.Ev{"attrs": attrRecs(cp.AllAttributes()), "cls": attrRecs(cp.AllClassAttributes()), "rows": crows, "cells": readAll(cp, specs, s.width)}
		// Scribble over the copy: the original must not notice.
		if !full {
			cp.Extend(rows + 1)
			crows = rows + 1
		}
		for i := range specs {
			for r := 0; r < crows; r++ {
				cp.Set(specs[i], r, tokBytes("v3", s.width[i]))
			}
		}
		if len(s.attrs) > 0 {
			for _, a := range s.attrs {
				cp.AddClassAttribute(a)
			}
		}
		s.log(vh.Ev{"e": "Copy", "full": full, "copy": rec})
	}
}

func (s *gridSession) nonClass() {
	s.t.Log(vh.Ev{"e": "NonClass", "all": attrRecs(base.NonClassAttributes(s.g)), "floats": attrRecs(base.NonClassFloatAttributes(s.g))})
}

func (s *gridSession) setOps() {
	pool := append([]base.Attribute{}, s.attrs...)
	for i := 0; i < 3; i++ {
		pool = append(pool, mkAttr("F", fmt.Sprintf("extra%d", i)))
	}
	pick := func() []base.Attribute {
		out := make([]base.Attribute, 0)
		for _, i := range s.t.Rng.Perm(len(pool)) {
			if s.t.Rng.Intn(2) == 0 {
				out = append(out, pool[i])
			}
		}
		return out
	}
	a, b := pick(), pick()
	s.t.Log(vh.Ev{"e": "SetOps", "a": attrRecs(a), "b": attrRecs(b), "inter": attrRecs(base.AttributeIntersect(a, b)), "diff": attrRecs(base.AttributeDifference(a, b)),
		"interref": attrRecs(base.AttributeIntersectReferences(a, b)), "diffref": attrRecs(base.AttributeDifferenceReferences(a, b))})
}

func gridScenario(raw json.RawMessage) func(t *vh.T) {
	return func(t *vh.T) {
		var ops []map[string]interface{}
		if err := json.Unmarshal(raw, &ops); err != nil {
			panic(err)
		}
		s := newGridSession(t)
		for _, o := range ops {
			s.do(o)
		}
		s.copies()
		s.nonClass()
		s.setOps()
	}
}

// bigLayout makes a wide grid (several default groups of a kind, several bytes of packed bits).
func bigLayout(nf, nc, nb, rows int, classes bool) func(t *vh.T) {
	return func(t *vh.T) {
		s := newGridSession(t)
		add := func(k string, n int) {
			names := make([]string, 0)
			for i := 0; i < n; i++ {
				nm := fmt.Sprintf("%s%d", k, i)
				a := mkAttr(k, nm)
				sp := s.g.AddAttribute(a)
				w := 8
				if k == "B" {
					w = 0
				}
				s.attrs, s.specs, s.width = append(s.attrs, a), append(s.specs, sp), append(s.width, w)
				names = append(names, nm)
			}
			if n > 0 {
				t.Log(vh.Ev{"e": "AddMany", "k": k, "names": names, "g": "default-" + k, "ok": true})
			}
		}
		add("F", nf)
		add("B", nb/2)
		add("C", nc)
		add("B2", 0)
		s.g.Extend(rows)
		s.log(vh.Ev{"e": "Extend", "n": rows, "ok": true})
		if classes {
			for i := 0; i < 2; i++ {
				a := s.attrs[t.Rng.Intn(len(s.attrs))]
				s.g.AddClassAttribute(fresh(a))
				r := attrRec(a)
				s.t.Log(vh.Ev{"e": "Mark", "k": r["k"], "n": r["n"], "ok": true})
			}
		}
		for round := 0; round < 2; round++ {
			for i := 0; i < 40; i++ {
				a, r := t.Rng.Intn(len(s.attrs)), t.Rng.Intn(rows)
				if i < 8 && len(s.attrs) > 1 { // neighbours at group boundaries
					a = []int{nf - 1, nf - 2, 510, 511, 512, 513, 0, 1}[i]
					if a < 0 || a >= len(s.attrs) {
						a = len(s.attrs) - 1
					}
				}
				tok := gridToks[t.Rng.Intn(4)]
				if s.width[a] == 0 && tok != "z" {
					tok = "v1"
				}
				s.g.Set(s.specs[a], r, tokBytes(tok, s.width[a]))
				t.Log(vh.Ev{"e": "Set", "a": a + 1, "r": r + 1, "v": tok, "ok": true})
			}
			more := 1
			if rows > 100 {
				more = rows + t.Rng.Intn(50)
			}
			s.g.Extend(more)
			rows += more
			s.log(vh.Ev{"e": "Extend", "n": more, "ok": true})
		}
		s.copies()
		s.nonClass()
	}
}

func init() {
	gen := func(name string) func(c *vh.Ctx) {
		return func(c *vh.Ctx) {
			sc := c.Scenarios(name)
			for _, raw := range sc {
				c.Case("history", gridScenario(raw))
			}
			lay := [][4]int{{3, 2, 40, 3}, {0, 0, 34, 2}, {520, 0, 0, 2}, {0, 515, 4, 2}, {1, 1, 18, 5}, {0, 0, 16, 4}, {0, 0, 1100, 2}, {1, 2, 10, 600}, {0, 1, 600, 130}}
			if c.Thorough() {
				lay = append(lay, [4]int{1030, 3, 6, 1}, [4]int{513, 513, 64, 1})
				for i := 0; i < 40; i++ {
					lay = append(lay, [4]int{i % 7, i % 5, 2 + 2*i, 1 + i%4})
				}
			}
			for _, L := range lay {
				c.Case("wide", bigLayout(L[0], L[1], L[2], L[3], name == "attrs"))
			}
			// Falsified records: a lost write, a leaked write, a wrong count, a lost class mark.
			for i := 0; i < 3 && i < len(sc); i++ {
				for _, what := range []string{"cell", "rows", "attr", "cls"} {
					what := what
					c.Canary(what, gridScenario(sc[i]), func(evs []vh.Ev) []vh.Ev {
						for j := len(evs) - 1; j >= 0; j-- {
							st, ok := evs[j]["st"].(map[string]interface{})
							if !ok {
								continue
							}
							switch what {
							case "rows":
								st["rows"] = 99
								return evs
							case "attr":
								as := st["attrs"].([]interface{})
								if len(as) > 0 {
									st["attrs"] = as[1:]
									return evs
								}
							case "cls":
								as := st["cls"].([]interface{})
								st["cls"] = append(as, vh.Ev{"k": "F", "n": "ghost"})
								return evs
							case "cell":
								cs := st["cells"].([]interface{})
								if len(cs) > 0 && len(cs[0].([]interface{})) > 0 {
									row := cs[0].([]interface{})
									if row[0] == "v2" {
										row[0] = "v3"
									} else {
										row[0] = "v2"
									}
									return evs
								}
							}
						}
						return []vh.Ev{{"e": "Panic"}}
					})
				}
			}
		}
	}
	vh.Register("C01", gen("cells"))
	vh.Register("C02", gen("attrs"))
}
