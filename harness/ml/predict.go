package main

import (
	"encoding/json"
	"fmt"
	"strconv"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/neural"
	"github.com/sjwhitworth/golearn/perceptron"
	"github.com/sjwhitworth/golearn/trees"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// plain classifiers cannot be saved
type plain interface {
	Fit(base.FixedDataGrid) error
	Predict(base.FixedDataGrid) (base.FixedDataGrid, error)
}

func bare(c plain) *model {
	return &model{func(g base.FixedDataGrid) { must(c.Fit(g)) }, c.Predict, nil, nil}
}

// answerKinds are asked for predictions only.
var answerKinds = []kind{
	{"logistic", shape{floats: 3, classes: two, floatClass: true}, func(s int64) *model {
		c, err := linear_models.NewLogisticRegression([]string{"l1", "l2"}[s&1], 1.0, 1e-4)
		must(err)
		return bare(c)
	}},
	{"linear-regression", shape{floats: 2, classes: three, floatClass: true, fixed: true}, func(s int64) *model {
		return bare(linear_models.NewLinearRegression())
	}},
	{"perceptron", shape{floats: 3, classes: two, fixed: true}, func(s int64) *model {
		p := perceptron.NewAveragePerceptron(3, 1.0, 0.5, 0.3)
		return &model{p.Fit, func(g base.FixedDataGrid) (base.FixedDataGrid, error) { return p.Predict(g), nil }, nil, nil}
	}},
	{"layers", shape{floats: 2, classes: three}, func(s int64) *model {
		m := neural.NewMultiLayerNet([]int{3})
		m.MaxIterations = 50
		return &model{m.Fit, func(g base.FixedDataGrid) (base.FixedDataGrid, error) { return m.Predict(g), nil }, nil, nil}
	}},
	{"layers-none", shape{floats: 2, classes: two}, func(s int64) *model {
		m := neural.NewMultiLayerNet([]int{})
		m.MaxIterations = 20
		return &model{m.Fit, func(g base.FixedDataGrid) (base.FixedDataGrid, error) { return m.Predict(g), nil }, nil, nil}
	}},
	{"knn-cosine", shape{floats: 3, classes: three, wide: true}, func(s int64) *model {
		return wrap(knn.NewKnnClassifier("cosine", "linear", 1))
	}},
	{"forest-cat", shape{cats: 4, classes: two}, func(s int64) *model { return wrap(ensemble.NewRandomForest(7, 3)) }},
	{"bagged-mixed", shape{floats: 2, cats: 1, classes: two}, func(s int64) *model {
		b := &meta.BaggedModel{RandomFeatures: 2}
		for i := 0; i < 3; i++ {
			b.AddModel(trees.NewID3DecisionTree(0.3))
		}
		return &model{b.Fit, b.Predict, b.Save, b.Load}
	}},
}

// content lists the rows of a grid attribute by attribute, in the order of names, and the labels.
func content(g base.FixedDataGrid, names []string, class string) ([][]string, []string) {
	_, n := g.Size()
	rows := make([][]string, n)
	labs := make([]string, n)
	get := func(name string, r int) string {
		for _, a := range g.AllAttributes() {
			if a.GetName() == name {
				sp, err := g.GetAttribute(a)
				if err != nil {
					return "?"
				}
				if _, ok := a.(*base.FloatAttribute); ok && name != class { // every digit
					return strconv.FormatFloat(base.UnpackBytesToFloat(g.Get(sp, r)), 'g', -1, 64)
				}
				return a.GetStringFromSysVal(g.Get(sp, r))
			}
		}
		return "?"
	}
	for r := range rows {
		rows[r] = []string{}
		for _, nm := range names {
			rows[r] = append(rows[r], get(nm, r))
		}
		labs[r] = get(class, r)
	}
	return rows, labs
}

type pstep struct {
	Op   string `json:"op"`
	Ids  []int  `json:"ids"`
	Form string `json:"form"`
}

// batch makes a grid of rows of the pool, with the labels given.
func (p *poolOf) batch(t *vh.T, ids []int, labels []string, form string) base.FixedDataGrid {
	src := p.grid
	d := base.NewDenseInstances()
	as := src.AllAttributes()
	if form == "columns" {
		perm := t.Rng.Perm(len(as))
		bs := make([]base.Attribute, len(as))
		for i, k := range perm {
			bs[i] = as[k]
		}
		as = bs
	}
	for _, a := range as {
		d.AddAttribute(a)
	}
	must(d.AddClassAttribute(src.AllClassAttributes()[0]))
	pad := 0
	if form == "view" {
		pad = t.Rng.Intn(4)
	}
	must(d.Extend(len(ids) + pad))
	where := t.Rng.Perm(len(ids) + pad)
	if form != "view" {
		for i := range where {
			where[i] = i
		}
	}
	for _, a := range as {
		from, err := src.GetAttribute(a)
		must(err)
		to, err := d.GetAttribute(a)
		must(err)
		for i := range where {
			k := t.Rng.Intn(p.n)
			if i < len(ids) {
				k = ids[i] - 1
			}
			if i < len(ids) && a.GetName() == "class" {
				d.Set(to, where[i], a.GetSysValFromString(labels[i]))
			} else {
				d.Set(to, where[i], src.Get(from, k))
			}
		}
	}
	if form == "view" {
		return base.NewInstancesViewFromVisible(d, where[:len(ids)], d.AllAttributes())
	}
	return d
}

type poolOf struct {
	grid  *base.DenseInstances
	n     int
	names []string
	rows  [][]string
}

func predictions(t *vh.T, k kind, steps []pstep) {
	// every row of the history may stand for several rows of the pool
	times := 1
	k.shape = k.shape.vary(t.Rng)
	if len(k.shape.classes) > 3 {
		times = 3
	}
	if t.Rng.Intn(16) == 0 {
		times = 15 + t.Rng.Intn(3)
	}
	p := &poolOf{n: 18 * times}
	p.grid = k.shape.grid(t.Rng, p.n, t.Rng.Intn(3) > 0)
	for _, a := range p.grid.AllAttributes() {
		if a.GetName() != "class" {
			p.names = append(p.names, a.GetName())
		}
	}
	rows, base0 := content(p.grid, p.names, "class")
	p.rows = rows
	t.Log(vh.Ev{"e": "Pool", "cells": rows})
	classes := map[string]bool{}
	for _, l := range base0 {
		classes[l] = true
	}
	var names []string
	for i := range k.shape.classes {
		names = append(names, base0[i])
	}
	var m *model
	var train base.FixedDataGrid
	real := k.name == "linear-regression"
	for _, s := range steps {
		var ids []int
		for j := 0; j < times; j++ {
			for _, id := range s.Ids {
				ids = append(ids, id+18*j)
			}
		}
		if times > 3 && s.Op == "Predict" && t.Rng.Intn(3) > 0 {
			ids = ids[:len(s.Ids)]
		}
		s.Ids = ids
		switch s.Op {
		case "Fit":
			// a label for every kind of row, such that every label occurs
			lab := map[string]string{}
			next := 0
			for _, id := range s.Ids {
				key := fmt.Sprint(rows[id-1])
				if _, ok := lab[key]; !ok {
					if next < len(names) {
						lab[key] = names[next]
						next++
					} else {
						lab[key] = base0[id-1]
					}
				}
			}
			if next < len(names) {
				return
			}
			var ls []string
			for _, id := range s.Ids {
				ls = append(ls, lab[fmt.Sprint(rows[id-1])])
			}
			train = p.batch(t, s.Ids, ls, []string{"dense", "view"}[t.Rng.Intn(2)])
			if m == nil || t.Rng.Intn(2) == 0 {
				m = k.make(t.Rng.Int63())
			}
			m.fit(train)
			tr, tl := content(train, p.names, "class")
			t.Log(vh.Ev{"e": "Fit", "ids": s.Ids, "labels": ls, "real": real, "train": vh.Ev{"rows": tr, "labels": tl}})
		case "Predict":
			ls := make([]string, len(s.Ids))
			for i := range ls {
				ls[i] = names[t.Rng.Intn(len(names))]
			}
			q := p.batch(t, s.Ids, ls, s.Form)
			out, err := m.predict(q)
			must(err)
			attrs, cls := []string{}, []string{}
			for _, a := range out.AllAttributes() {
				attrs = append(attrs, a.GetName())
			}
			for _, a := range out.AllClassAttributes() {
				cls = append(cls, a.GetName())
			}
			tr, tl := content(train, p.names, "class")
			qr, ql := content(q, p.names, "class")
			t.Log(vh.Ev{"e": "Predict", "ids": s.Ids, "form": s.Form, "labels": ls, "answers": labels(out), "attrs": attrs, "cls": cls, "class": "class",
				"train": vh.Ev{"rows": tr, "labels": tl}, "query": vh.Ev{"rows": qr, "labels": ql}})
		}
	}
}

func init() {
	vh.Register("C38", func(c *vh.Ctx) {
		all := append(append(append([]kind{}, kinds...), moreKinds...), answerKinds...)
		for i, raw := range c.Scenarios("predict") {
			var steps []pstep
			must(json.Unmarshal(raw, &steps))
			k := all[i%len(all)]
			c.Case(k.name, func(t *vh.T) { predictions(t, k, steps) })
			if i < 6 {
				what := []string{"label", "memo", "changed"}[i%3]
				c.Canary(what, func(t *vh.T) { predictions(t, all[0], steps) }, func(evs []vh.Ev) []vh.Ev {
					e := evs[len(evs)-1]
					switch what {
					case "label":
						e["answers"].([]interface{})[0] = "maybe"
					case "memo":
						a := e["answers"].([]interface{})
						e["answers"] = a[:len(a)-1]
					case "changed":
						e["train"].(map[string]interface{})["labels"].([]interface{})[0] = "other"
					}
					return evs
				})
			}
		}
	})
}
