package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/evaluation"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// classColumn is a grid with a class column (and perhaps more) holding the given labels.
func classColumn(rng *rand.Rand, kind int, labels []string, vals []int) base.FixedDataGrid {
	g := base.NewDenseInstances()
	var cls base.Attribute
	switch kind {
	case 0:
		c := base.NewCategoricalAttribute()
		c.SetName("class")
		for _, i := range rng.Perm(len(labels)) {
			if rng.Intn(2) == 0 {
				c.GetSysValFromString(labels[i])
			}
		}
		cls = c
	case 1:
		cls = base.NewBinaryAttribute("class")
	default:
		cls = base.NewFloatAttribute("class")
	}
	other := rng.Intn(3)
	if other == 1 {
		g.AddAttribute(base.NewFloatAttribute("x"))
	}
	g.AddAttribute(cls)
	if other == 2 {
		g.AddAttribute(base.NewBinaryAttribute("y"))
	}
	must(g.AddClassAttribute(cls))
	g.Extend(len(vals))
	for r, v := range vals {
		base.SetClass(g, r, labels[v])
	}
	if rng.Intn(3) == 0 {
		// the same rows through a view which is turned round twice
		back := seq(len(vals))
		sort.Sort(sort.Reverse(sort.IntSlice(back)))
		v := base.NewInstancesViewFromVisible(g, back, g.AllAttributes())
		return base.NewInstancesViewFromVisible(v, back, v.AllAttributes())
	}
	return g
}

func micro(f float64) int {
	if math.IsNaN(f) {
		return -1
	}
	return vh.Scaled(f, 1e6)
}

func entries(m map[string]map[string]int, index func(string) int) []vh.Ev {
	out := make([]vh.Ev, 0)
	for r, row := range m {
		for p, n := range row {
			out = append(out, vh.Ev{"r": index(r), "p": index(p), "n": n})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a["r"].(int) != b["r"].(int) {
			return a["r"].(int) < b["r"].(int)
		}
		return a["p"].(int) < b["p"].(int)
	})
	return out
}

func measure(t *vh.T, m evaluation.ConfusionMatrix, labels []string, index func(string) int) {
	ks := make([]vh.Ev, 0)
	for i, k := range labels {
		ks = append(ks, vh.Ev{"k": i, "tp": vh.Int(evaluation.GetTruePositives(k, m)), "fp": vh.Int(evaluation.GetFalsePositives(k, m)),
			"fn": vh.Int(evaluation.GetFalseNegatives(k, m)), "tn": vh.Int(evaluation.GetTrueNegatives(k, m)),
			"precision": micro(evaluation.GetPrecision(k, m)), "recall": micro(evaluation.GetRecall(k, m)), "f1": micro(evaluation.GetF1Score(k, m))})
	}
	t.Log(vh.Ev{"e": "Measure", "matrix": entries(m, index), "classes": ks, "accuracy": micro(evaluation.GetAccuracy(m)),
		"microp": micro(evaluation.GetMicroPrecision(m)), "micror": micro(evaluation.GetMicroRecall(m)),
		"macrop": micro(evaluation.GetMacroPrecision(m)), "macror": micro(evaluation.GetMacroRecall(m))})
}

// folded is a stand-in classifier for cross-validation.
type folded struct {
	member
	fail   func() bool
	failed *bool
	guess  func() int
	short  func() bool // predict another number of rows than asked for
}

func (m *folded) Fit(g base.FixedDataGrid) error {
	f, c, k := seen(g)
	m.t.Log(vh.Ev{"e": "Fit", "feats": f, "cells": c, "cls": k})
	if m.fail() {
		*m.failed = true
		return errors.New("cannot fit")
	}
	return nil
}
func (m *folded) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	f, c, k := seen(g)
	ret := base.GeneratePredictionVector(g)
	pred := make([]int, len(c))
	for i := range c {
		pred[i] = m.guess()
		base.SetClass(ret, i, classNames[pred[i]])
	}
	m.t.Log(vh.Ev{"e": "Predict", "feats": f, "cells": c, "cls": k, "pred": pred})
	if m.fail() {
		*m.failed = true
		return nil, errors.New("cannot predict")
	}
	if len(c) > 0 && m.short() {
		*m.failed = true
		return base.NewInstancesViewFromVisible(ret, seq(len(c)-1), ret.AllAttributes()), nil
	}
	return ret, nil
}

func init() {
	vh.Register("C29", func(c *vh.Ctx) {
		counts := func(t *vh.T, n int) {
			rng := t.Rng
			kind := rng.Intn(3)
			labels := []string{"a", "b b", "c", "0", "class", "", "A", " a", "a ", "C", "1"}[:1+rng.Intn(11)]
			if n > 100 && rng.Intn(2) == 0 {
				for i := 0; i < 30; i++ {
					labels = append(labels, fmt.Sprintf("k%d", i))
				}
			}
			switch kind {
			case 1:
				labels = []string{"0", "1"}
			case 2:
				labels = []string{"0", "1", "-2", "0.5"}
			}
			names := map[string]int{}
			ref, gen := make([]int, n), make([]int, n)
			for i := range ref {
				ref[i], gen[i] = rng.Intn(len(labels)), rng.Intn(len(labels))
				if rng.Intn(2) == 0 {
					gen[i] = ref[i]
				}
			}
			if rng.Intn(4) == 0 {
				for i := range gen { // a class never met in the reference
					if ref[i] == 0 {
						ref[i] = len(labels) - 1
					}
				}
			}
			for i := range labels { // as the attribute prints it
				names[base.GetClass(classColumn(rng, kind, labels, []int{i}), 0)] = i
			}
			shown := make([]string, len(labels))
			for l, i := range names {
				shown[i] = l
			}
			index := func(s string) int {
				if i, ok := names[s]; ok {
					return i
				}
				return 99
			}
			if rng.Intn(8) == 0 {
				k := rng.Intn(n + 3)
				more := make([]int, k)
				_, err := evaluation.GetConfusionMatrix(classColumn(rng, kind, labels, ref), classColumn(rng, kind, labels, more))
				t.Log(vh.Ev{"e": "Mismatch", "refs": n, "gens": k, "reported": err != nil})
			}
			m, err := evaluation.GetConfusionMatrix(classColumn(rng, kind, labels, ref), classColumn(rng, kind, labels, gen))
			must(err)
			t.Log(vh.Ev{"e": "Count", "ref": ref, "gen": gen, "matrix": entries(m, index)})
			measure(t, m, shown, index)
		}
		count := func(t *vh.T) { counts(t, t.Rng.Intn(25)) }
		free := func(t *vh.T) {
			rng := t.Rng
			k := 1 + rng.Intn(5)
			most := []int{40, 40, 300, 100000}[rng.Intn(4)]
			labels := make([]string, k)
			for i := range labels {
				labels[i] = fmt.Sprintf("%d", i)
			}
			m := evaluation.ConfusionMatrix{}
			for _, r := range labels {
				if rng.Intn(5) == 0 {
					continue
				}
				m[r] = map[string]int{}
				for _, p := range labels {
					if rng.Intn(3) > 0 {
						m[r][p] = rng.Intn(most)
					}
				}
				m[r][labels[rng.Intn(k)]] = 1 + rng.Intn(most) // a reference class has rows
			}
			measure(t, m, labels, func(s string) int { return int(s[0] - '0') })
		}
		for i := 0; i < c.N(1000, 15000); i++ {
			c.Case("count", count)
		}
		for i := 0; i < c.N(20, 200); i++ {
			c.Case("many", func(t *vh.T) { counts(t, 300+t.Rng.Intn(1500)) })
		}
		for i := 0; i < c.N(600, 10000); i++ {
			c.Case("free", free)
		}
		for i := 0; i < 4; i++ {
			c.Canary("measure", free, func(evs []vh.Ev) []vh.Ev {
				k := evs[0]["classes"].([]interface{})[0].(map[string]interface{})
				k["tn"] = k["tn"].(float64) + 1
				return evs
			})
		}
	})
	vh.Register("C30", func(c *vh.Ctx) {
		fold := func(t *vh.T, failing string) {
			rng := t.Rng
			classes, feats, rows, k := 1+rng.Intn(4), 1+rng.Intn(3), 1+rng.Intn(20), 1+rng.Intn(6)
			switch {
			case failing == "many":
				rows = 250 + rng.Intn(300)
				k = 2 + rng.Intn(2)
			case rng.Intn(6) == 0:
				k = 7 + rng.Intn(20)
			}
			var data base.FixedDataGrid = marked(feats, rows, 1, classes, rng.Intn(2) == 0, rng.Intn(2) == 0, rng.Intn(feats+1))
			cls := make([]int, rows)
			for i := range cls {
				cls[i] = (i + 1) % classes
			}
			if rng.Intn(3) == 0 {
				data = base.NewInstancesViewFromVisible(data, rng.Perm(rows), data.AllAttributes())
			}
			failed := false
			m := &folded{member: member{t: t, rng: rng}, failed: &failed, guess: func() int { return rng.Intn(classes) },
				fail:  func() bool { return failing == "fails" && rng.Intn(2*k) == 0 },
				short: func() bool { return failing == "short" && rng.Intn(k) == 0 }}
			t.Log(vh.Ev{"e": "Start", "rows": rows, "folds": k, "cls": cls})
			ms, err := evaluation.GenerateCrossFoldValidationConfusionMatrices(data, m, k)
			if failed || err != nil {
				t.Log(vh.Ev{"e": "Failure", "reported": failed && err != nil})
				return
			}
			out := make([][]vh.Ev, 0)
			for _, x := range ms {
				out = append(out, entries(x, classIndex))
			}
			t.Log(vh.Ev{"e": "Return", "mats": out})
			i := 0
			scores := make([]int, len(ms))
			mean, variance := evaluation.GetCrossValidatedMetric(ms, func(evaluation.ConfusionMatrix) float64 {
				scores[i] = rng.Intn(41) - 20
				i++
				return float64(scores[i-1])
			})
			n := float64(len(ms))
			t.Log(vh.Ev{"e": "Metric", "scores": scores, "mean": vh.Scaled(mean, n), "variance": vh.Scaled(variance, n*n)})
		}
		plain := func(t *vh.T) { fold(t, "") }
		for i := 0; i < c.N(900, 15000); i++ {
			c.Case("fold", plain)
		}
		for i := 0; i < c.N(8, 60); i++ {
			c.Case("many", func(t *vh.T) { fold(t, "many") })
		}
		for i := 0; i < c.N(60, 600); i++ {
			c.Case("failing", func(t *vh.T) { fold(t, "fails") })
			c.Case("short", func(t *vh.T) { fold(t, "short") })
		}
		for i := 0; i < 6; i++ {
			k := i % 3
			c.Canary("log", plain, func(evs []vh.Ev) []vh.Ev {
				switch k {
				case 0: // a round left out
					return append(append([]vh.Ev{}, evs[0]), evs[3:]...)
				case 1: // a count too many
					for _, e := range evs {
						if e["e"] == "Return" {
							for _, m := range e["mats"].([]interface{}) {
								if es := m.([]interface{}); len(es) > 0 {
									x := es[0].(map[string]interface{})
									x["n"] = x["n"].(float64) + 1
									return evs
								}
							}
						}
					}
				default: // tested on a row that was trained on
					evs[2]["cells"], evs[2]["cls"] = []interface{}{[]interface{}{101.0}}, []interface{}{1.0}
					evs[1]["cells"] = evs[2]["cells"]
				}
				return evs
			})
		}
	})
}
