package main

import (
	"errors"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// scorer is a stand-in for the member of one class.
type scorer struct {
	member
	scores func(rows int) []int // as fractions of den
	den    int
	least  float64 // added to every score
	fail   func() bool
}

func (m *scorer) Fit(g base.FixedDataGrid) error {
	f, c, k := seen(g)
	m.t.Log(vh.Ev{"e": "FitMember", "m": m.id, "feats": f, "cells": c, "target": k})
	return nil
}
func (m *scorer) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	f, c, _ := seen(g)
	if m.fail() {
		return nil, errors.New("cannot predict")
	}
	ret := base.GeneratePredictionVector(g)
	sp := base.ResolveAttributes(ret, ret.AllClassAttributes())[0]
	s := m.scores(len(c))
	for i, v := range s {
		ret.Set(sp, i, base.PackFloatToBytes(m.least+float64(v)/float64(m.den)))
	}
	m.t.Log(vh.Ev{"e": "AskMember", "m": m.id, "feats": f, "cells": c, "scores": s})
	return ret, nil
}

func init() {
	vh.Register("C27", func(c *vh.Ctx) {
		run := func(t *vh.T, failing bool) {
			rng := t.Rng
			classes, feats, rows := 2+rng.Intn(3), 1+rng.Intn(5), 1+rng.Intn(10)
			mixed, pos := rng.Intn(2) == 0, rng.Intn(feats+1)
			large := rng.Intn(20) == 0
			odd := 0
			if large {
				o := sizes{0, feats, rows, classes, 1 + rng.Intn(6)}.odd(rng)
				feats, rows, classes, odd = o.feats, o.rows, o.classes, o.tests
				if classes < 2 {
					classes = 2
				}
				pos = rng.Intn(feats + 1)
			}
			failed := false
			top := 1 + rng.Intn(8)
			low := rng.Intn(top + 1)
			den := []int{8, 8, 4096, 1 << 40}[rng.Intn(4)]
			least := []float64{0, 0, 0.5}[rng.Intn(3)]
			m := meta.NewOneVsAllModel(func(label string) base.Classifier {
				return &scorer{member: member{id: classIndex(label), t: t, rng: rng}, den: den, least: least, fail: func() bool {
					failed = failed || failing && rng.Intn(classes) == 0
					return failed
				}, scores: func(n int) []int {
					out := make([]int, n)
					for i := range out {
						out[i] = low + rng.Intn(top-low+1)
					}
					return out
				}}
			})
			for fits := 0; fits < 1+rng.Intn(2); fits++ {
				modulus := 1 + rng.Intn(classes)
				if fits > 0 && rng.Intn(2) == 0 { // other features, another number of classes
					feats, rows = 1+rng.Intn(5), 1+rng.Intn(10)
					classes, pos = 2+rng.Intn(3), rng.Intn(feats+1)
					modulus = 1 + rng.Intn(classes)
				}
				train := remarked(marked(feats, rows, 1, classes, rng.Intn(2) == 0, mixed, pos), modulus)
				t.Log(vh.Ev{"e": "FitCall", "feats": feats, "rows": rows, "modulus": modulus, "classes": classes})
				m.Fit(train)
				t.Log(vh.Ev{"e": "FitReturn"})
				for r := 0; r < rng.Intn(3); r++ {
					tests := rng.Intn(7)
					if large {
						tests = odd
					}
					var test base.FixedDataGrid = marked(feats, tests, 60, classes, false, mixed, pos)
					if rng.Intn(3) == 0 {
						test = base.NewInstancesViewFromVisible(test, seq(tests), test.AllAttributes())
					}
					t.Log(vh.Ev{"e": "PredictCall", "rows": tests})
					failed = false
					p, err := m.Predict(test)
					if failed || err != nil {
						t.Log(vh.Ev{"e": "Failure", "reported": failed && err != nil})
						continue
					}
					t.Log(vh.Ev{"e": "PredictReturn", "res": labelled(p), "only": len(p.AllAttributes())})
				}
			}
		}
		plain := func(t *vh.T) { run(t, false) }
		for i := 0; i < c.N(900, 15000); i++ {
			c.Case("plain", plain)
		}
		for i := 0; i < c.N(60, 900); i++ {
			c.Case("failing", func(t *vh.T) { run(t, true) })
		}
		for i := 0; i < 4; i++ {
			k := i % 2
			c.Canary("log", plain, func(evs []vh.Ev) []vh.Ev {
				if k == 0 { // a member left out
					return append(append([]vh.Ev{}, evs[0]), evs[2:]...)
				}
				s := evs[1]["target"].([]interface{})
				s[0] = 1 - s[0].(float64)
				return evs
			})
		}
	})
}

// remarked gives row number r (from one) the class r % modulus.
func remarked(g *base.DenseInstances, modulus int) *base.DenseInstances {
	sp, err := g.GetAttribute(g.AllClassAttributes()[0])
	must(err)
	_, n := g.Size()
	for r := 0; r < n; r++ {
		g.Set(sp, r, base.PackU64ToBytes(uint64((r+1)%modulus)))
	}
	return g
}
