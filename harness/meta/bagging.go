package main

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"time"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var classNames = []string{"red", "green", "blue", "grey"}

func init() {
	for i := len(classNames); i < 300; i++ {
		classNames = append(classNames, fmt.Sprintf("c%d", i))
	}
}

// sizes are those of a data set; now and then one of them is large and the rest small.
type sizes struct{ members, feats, rows, classes, tests int }

func (s sizes) odd(rng *rand.Rand) sizes {
	few := func(n int) int { return 1 + rng.Intn(n) }
	switch rng.Intn(7) {
	case 0:
		return sizes{few(3), few(3), 250 + rng.Intn(300), s.classes, s.tests}
	case 1:
		return sizes{few(3), few(2), few(4), s.classes, 250 + rng.Intn(100)}
	case 2:
		return sizes{few(4), few(3), few(40), 5 + rng.Intn(36), few(30)}
	case 3:
		return sizes{few(3), 1, 3, 257 + rng.Intn(20), few(30)}
	case 4, 5:
		return sizes{150 + rng.Intn(450), few(2), few(3), 1 + rng.Intn(3), few(4)}
	default:
		return sizes{few(4), 30 + rng.Intn(60), few(6), s.classes, few(4)}
	}
}

// marked is a grid whose cells tell their row and column: 100*row + column.
func marked(feats, rows, first, classes int, split, mixed bool, pos int) *base.DenseInstances {
	g := base.NewDenseInstances()
	cls := base.NewCategoricalAttribute()
	cls.SetName("class")
	for _, c := range classNames[:classes] {
		cls.GetSysValFromString(c)
	}
	addClass := func() { g.AddAttribute(cls) }
	as := make([]base.Attribute, feats)
	for i := range as {
		as[i] = base.NewFloatAttribute(fmt.Sprintf("f%d", i+1))
		if mixed && i%2 == 1 {
			k := base.NewCategoricalAttribute()
			k.SetName(fmt.Sprintf("f%d", i+1))
			as[i] = k
		}
		if i == pos {
			addClass()
		}
		g.AddAttribute(as[i])
	}
	if pos >= feats {
		addClass()
	}
	must(g.AddClassAttribute(cls))
	if split {
		g.Extend(rows / 2)
		g.Extend(rows - rows/2)
	} else {
		g.Extend(rows)
	}
	csp, err := g.GetAttribute(cls)
	must(err)
	for r := 0; r < rows; r++ {
		for i, a := range as {
			sp, err := g.GetAttribute(a)
			must(err)
			if v := 100*(first+r) + i + 1; mixed && i%2 == 1 {
				g.Set(sp, r, base.PackU64ToBytes(uint64(v)))
			} else {
				g.Set(sp, r, base.PackFloatToBytes(float64(v)))
			}
		}
		g.Set(csp, r, base.PackU64ToBytes(uint64((first+r)%classes)))
	}
	return g
}

// seen projects a grid: its features, their cells, and its class column.
func seen(g base.FixedDataGrid) (feats []int, cells [][]int, cls []int) {
	feats, cells, cls = []int{}, [][]int{}, []int{}
	var sps []base.AttributeSpec
	all, cas := g.AllAttributes(), g.AllClassAttributes()
	for _, a := range all {
		isClass := false
		for _, c := range cas {
			isClass = isClass || a.Equals(c)
		}
		if isClass {
			continue
		}
		k := 99
		fmt.Sscanf(a.GetName(), "f%d", &k)
		feats = append(feats, k)
		sp, err := g.GetAttribute(a)
		must(err)
		sps = append(sps, sp)
	}
	_, n := g.Size()
	for r := 0; r < n; r++ {
		row := make([]int, len(sps))
		for i, sp := range sps {
			if _, ok := sp.GetAttribute().(*base.CategoricalAttribute); ok {
				row[i] = int(base.UnpackBytesToU64(g.Get(sp, r)))
			} else {
				row[i] = vh.Int(base.UnpackBytesToFloat(g.Get(sp, r)))
			}
		}
		cells = append(cells, row)
	}
	if len(cas) == 1 && cas[0].GetName() == "class" {
		sp, err := g.GetAttribute(cas[0])
		must(err)
		for r := 0; r < n; r++ {
			if _, ok := cas[0].(*base.FloatAttribute); ok {
				cls = append(cls, vh.Int(base.UnpackBytesToFloat(g.Get(sp, r))))
			} else {
				cls = append(cls, int(base.UnpackBytesToU64(g.Get(sp, r))))
			}
		}
	}
	return
}

// member is a stand-in classifier which records what it is given and answers as told.
type member struct {
	base.BaseClassifier
	id     int
	t      *vh.T
	rng    *rand.Rand
	votes  [][]int // per round, a class per row
	fails  []bool
	rounds int
	own    bool // answers with an attribute of its own making
	tuned  func(m *member)
}

func (m *member) pause() {
	switch m.rng.Intn(4) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(m.rng.Intn(300)) * time.Microsecond)
	}
}
func (m *member) Fit(g base.FixedDataGrid) error {
	f, c, k := seen(g)
	m.t.Log(vh.Ev{"e": "FitStart", "m": m.id, "feats": f, "cells": c, "cls": k})
	m.pause()
	m.t.Log(vh.Ev{"e": "FitEnd", "m": m.id})
	return nil
}
func (m *member) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	f, c, _ := seen(g)
	m.t.Log(vh.Ev{"e": "AskStart", "m": m.id, "feats": f, "cells": c})
	m.pause()
	r := m.rounds
	m.rounds++
	if r >= len(m.votes) {
		r = len(m.votes) - 1
	}
	if m.fails[r] {
		m.t.Log(vh.Ev{"e": "AskFail", "m": m.id})
		return nil, errors.New("cannot predict")
	}
	ret := base.GeneratePredictionVector(g)
	for i, v := range m.votes[r] {
		base.SetClass(ret, i, classNames[v])
	}
	m.t.Log(vh.Ev{"e": "AskEnd", "m": m.id, "ans": m.votes[r]})
	return ret, nil
}
func (m *member) String() string    { return fmt.Sprintf("member %d", m.id) }
func (m *member) Save(string) error { return nil }
func (m *member) Load(string) error { return nil }
func (m *member) GetMetadata() base.ClassifierMetadataV1 {
	return base.ClassifierMetadataV1{FormatVersion: 1, ClassifierName: "member", ClassifierVersion: "1.0"}
}
func (m *member) SaveWithPrefix(*base.ClassifierSerializer, string) error   { return nil }
func (m *member) LoadWithPrefix(*base.ClassifierDeserializer, string) error { return nil }

func classIndex(l string) int {
	for i, c := range classNames {
		if c == l {
			return i
		}
	}
	return 99
}

func labelled(g base.FixedDataGrid) []int {
	_, n := g.Size()
	out := make([]int, n)
	for r := range out {
		out[r] = classIndex(base.GetClass(g, r))
	}
	return out
}

func init() {
	vh.Register("C25", func(c *vh.Ctx) {
		bag := func(t *vh.T, wide, failing bool) {
			rng := t.Rng
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1 + rng.Intn(8)))
			n, feats, rows, classes := 1+rng.Intn(12), 1+rng.Intn(5), 1+rng.Intn(10), 1+rng.Intn(4)
			want := rng.Intn(feats + 1)
			tests := rng.Intn(8)
			if rng.Intn(8) == 0 {
				n = 13 + rng.Intn(30)
			}
			if wide {
				n, feats, rows, want = 60, 3, 5, 1
			} else if rng.Intn(20) == 0 {
				o := sizes{n, feats, rows, classes, tests}.odd(rng)
				n, feats, rows, classes, tests = o.members, o.feats, o.rows, o.classes, o.tests
				want = rng.Intn(feats + 1)
			}
			mixed, pos := rng.Intn(2) == 0, rng.Intn(feats+1)
			var train base.FixedDataGrid = marked(feats, rows, 1, classes, rng.Intn(2) == 0, mixed, pos)
			t.Log(vh.Ev{"e": "New", "members": n, "feats": feats, "rows": rows, "classes": classes, "want": want})
			b := new(meta.BaggedModel)
			b.RandomFeatures = want
			ms := make([]*member, n)
			rounds := 1 + rng.Intn(3)
			for i := range ms {
				m := &member{id: i + 1, t: t, rng: rand.New(rand.NewSource(rng.Int63()))}
				for r := 0; r < rounds; r++ {
					v := make([]int, tests)
					for k := range v {
						v[k] = rng.Intn(classes)
						if rng.Intn(3) == 0 {
							v[k] = k % classes
						}
					}
					m.votes = append(m.votes, v)
					m.fails = append(m.fails, failing && rng.Intn(n) == 0)
				}
				ms[i] = m
				b.AddModel(m)
			}
			fit := func() {
				t.Log(vh.Ev{"e": "FitCall", "feats": feats, "rows": rows})
				b.Fit(train)
				t.Log(vh.Ev{"e": "FitReturn", "wide": wide})
			}
			fit()
			if rng.Intn(5) == 0 {
				if rng.Intn(2) == 0 { // on other data, of other features
					rows = 1 + rng.Intn(10)
					feats = want + rng.Intn(4)
					if feats == 0 {
						feats = 1
					}
					pos = rng.Intn(feats + 1)
					train = marked(feats, rows, 1, classes, rng.Intn(2) == 0, mixed, pos)
				}
				fit()
			}
			for r := 0; r < rounds; r++ {
				var test base.FixedDataGrid = marked(feats, tests, 60, classes, false, mixed, pos)
				if rng.Intn(3) == 0 {
					test = base.NewInstancesViewFromVisible(test, seq(tests), test.AllAttributes())
				}
				t.Log(vh.Ev{"e": "PredictCall", "rows": tests})
				p, err := b.Predict(test)
				if err != nil {
					t.Log(vh.Ev{"e": "PredictError"})
					continue
				}
				t.Log(vh.Ev{"e": "PredictReturn", "res": labelled(p), "rows": tests, "only": len(p.AllAttributes())})
			}
		}
		plain := func(t *vh.T) { bag(t, false, false) }
		for i := 0; i < c.N(600, 12000); i++ {
			c.Case("bag", plain)
		}
		for i := 0; i < c.N(60, 600); i++ {
			c.Case("failing", func(t *vh.T) { bag(t, false, true) })
		}
		for i := 0; i < c.N(16, 160); i++ {
			c.Case("wide", func(t *vh.T) { bag(t, true, false) })
		}
		find := func(evs []vh.Ev, name string) int {
			for i, e := range evs {
				if e["e"] == name {
					return i
				}
			}
			return 0
		}
		for i := 0; i < 6; i++ {
			k := i % 3
			c.Canary("log", plain, func(evs []vh.Ev) []vh.Ev {
				switch k {
				case 0: // one member is not asked
					j := find(evs, "AskStart")
					return append(append([]vh.Ev{}, evs[:j]...), evs[j+1:]...)
				case 1: // a cell from elsewhere
					e := evs[find(evs, "FitStart")]
					e["cells"].([]interface{})[0].([]interface{})[0] = 5901.0
				default: // trained twice
					j := find(evs, "FitEnd")
					return append(append(append([]vh.Ev{}, evs[:j]...), evs[j], evs[j]), evs[j+1:]...)
				}
				return evs
			})
		}
	})
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}
