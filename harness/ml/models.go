package main

import (
	"fmt"
	"math/rand"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/naive"
	"github.com/sjwhitworth/golearn/trees"
)

// shape of a data set for a model.
type shape struct {
	floats, cats, bins int
	classes            []string
	floatClass         bool
	wide               bool // floats far apart: no two distances tie
	fixed              bool // classes and attributes stay as they are
	values             int  // of a categorical attribute; 0 for three
	unit, off          float64
	ending             string // of every label
}

// vary the sizes, the number of values and labels, and what the numbers stand for.
func (s shape) vary(rng *rand.Rand) shape {
	if rng.Intn(3) == 0 {
		s.unit = []float64{0.5, 0.0078125, 1024, 1.0 / (1 << 30), 1 << 40}[rng.Intn(5)]
	}
	if rng.Intn(4) == 0 && !s.wide {
		s.off = []float64{1000, -4096, 1 << 20, 0.5}[rng.Intn(4)]
	}
	if rng.Intn(4) == 0 {
		s.ending = []string{" ", "'s", "\u00e9", "\"q\"", "%", "{a, b}", "\\n"}[rng.Intn(7)]
	}
	if s.fixed {
		return s
	}
	if s.floats > 0 && rng.Intn(4) == 0 {
		s.floats += rng.Intn(9)
	}
	if s.bins > 0 && rng.Intn(3) == 0 {
		s.bins += rng.Intn(20)
	}
	if s.cats > 0 {
		switch rng.Intn(6) {
		case 0:
			s.values = 4 + rng.Intn(20)
		case 1:
			s.values = 257 + rng.Intn(20)
		case 2:
			s.cats += rng.Intn(4)
		}
	}
	if len(s.classes) > 2 && !s.floatClass && rng.Intn(4) == 0 {
		n := []int{4, 7, 12}[rng.Intn(3)]
		s.classes = nil
		for i := 0; i < n; i++ {
			s.classes = append(s.classes, fmt.Sprintf("k%d", i))
		}
	}
	return s
}

func (s shape) label(name string) string { return name + s.ending }

// grid makes a labelled data set: cells are small integers, labels c0, c1 ... per categorical column.
// learnable makes the class a function of the row's cells, so that models have something to find.
func (s shape) grid(rng *rand.Rand, rows int, learnable bool) *base.DenseInstances {
	d := base.NewDenseInstances()
	values, unit := s.values, s.unit
	if values == 0 {
		values = 3
	}
	if unit == 0 {
		unit = 1
	}
	var as []base.Attribute
	for i := 0; i < s.floats; i++ {
		as = append(as, base.NewFloatAttribute(fmt.Sprintf("f%d", i)))
	}
	for i := 0; i < s.cats; i++ {
		a := base.NewCategoricalAttribute()
		a.SetName(fmt.Sprintf("k%d", i))
		for j := 0; j < values; j++ {
			a.GetSysValFromString(s.label(fmt.Sprintf("v%d", j)))
		}
		as = append(as, a)
	}
	for i := 0; i < s.bins; i++ {
		as = append(as, base.NewBinaryAttribute(fmt.Sprintf("b%d", i)))
	}
	var cls base.Attribute
	if s.floatClass {
		cls = base.NewFloatAttribute("class")
	} else {
		a := base.NewCategoricalAttribute()
		a.SetName("class")
		for _, c := range s.classes {
			a.GetSysValFromString(s.label(c))
		}
		cls = a
	}
	for _, a := range as {
		d.AddAttribute(a)
	}
	d.AddAttribute(cls)
	d.AddClassAttribute(cls)
	d.Extend(rows)
	csp, _ := d.GetAttribute(cls)
	for r := 0; r < rows; r++ {
		sum := 0
		for _, a := range as {
			sp, _ := d.GetAttribute(a)
			switch a.(type) {
			case *base.FloatAttribute:
				v := rng.Intn(21) - 10
				if s.wide {
					v = rng.Intn(2000000001) - 1000000000
				}
				d.Set(sp, r, base.PackFloatToBytes(s.off+float64(v)*unit))
				sum += v
			case *base.BinaryAttribute:
				v := rng.Intn(2)
				d.Set(sp, r, []byte{byte(v)})
				sum += v * 3
			default:
				v := rng.Intn(values)
				d.Set(sp, r, base.PackU64ToBytes(uint64(v)))
				sum += v * 5
			}
		}
		k := rng.Intn(len(s.classes))
		if learnable {
			k = ((sum % len(s.classes)) + len(s.classes)) % len(s.classes)
			if s.floats > 0 && s.cats == 0 && s.bins == 0 { // something linear
				k = 0
				for k+1 < len(s.classes) && sum > 4*k {
					k++
				}
			}
		}
		if r < len(s.classes) {
			k = r // every class occurs
		}
		if s.floatClass {
			d.Set(csp, r, base.PackFloatToBytes(float64(k)))
		} else {
			d.Set(csp, r, base.PackU64ToBytes(uint64(k)))
		}
	}
	return d
}

// labels reads the class column.
func labels(g base.FixedDataGrid) []string {
	_, n := g.Size()
	out := make([]string, n)
	for r := range out {
		out[r] = base.GetClass(g, r)
	}
	return out
}

type model struct {
	fit     func(base.FixedDataGrid)
	predict func(base.FixedDataGrid) (base.FixedDataGrid, error)
	save    func(string) error
	load    func(string) error
}

type kind struct {
	name  string
	shape shape
	// make builds an untrained model; the same seed gives the same parameters
	make func(seed int64) *model
}

type classifier interface {
	Fit(base.FixedDataGrid) error
	Predict(base.FixedDataGrid) (base.FixedDataGrid, error)
	Save(string) error
	Load(string) error
}

func wrap(c classifier) *model {
	return &model{func(g base.FixedDataGrid) { must(c.Fit(g)) }, c.Predict, c.Save, c.Load}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var two = []string{"no", "yes"}
var three = []string{"red", "green", "blue"}

// kinds are the models that can be saved. Two classes and odd votes: no ties.
var kinds = []kind{
	{"knn", shape{floats: 2, classes: two, wide: true}, func(s int64) *model {
		rng := rand.New(rand.NewSource(s))
		c := knn.NewKnnClassifier([]string{"euclidean", "manhattan"}[rng.Intn(2)], []string{"linear", "kdtree"}[rng.Intn(2)], 1)
		c.AllowOptimisations = rng.Intn(2) == 0
		return wrap(c)
	}},
	{"id3", shape{cats: 3, classes: three}, func(s int64) *model { return wrap(trees.NewID3DecisionTree(0)) }},
	{"id3-mixed", shape{cats: 1, floats: 2, classes: three}, func(s int64) *model {
		return wrap(trees.NewID3DecisionTreeFromRule(0, &trees.InformationGainRatioRuleGenerator{}))
	}},
	{"random-tree", shape{floats: 3, classes: two}, func(s int64) *model { return wrap(trees.NewRandomTree(2)) }},
	{"forest", shape{floats: 3, classes: two}, func(s int64) *model { return wrap(ensemble.NewRandomForest(5, 2)) }},
	{"bayes", shape{bins: 4, classes: two}, func(s int64) *model { return wrap(naive.NewBernoulliNBClassifier()) }},
	{"bagged", shape{floats: 3, classes: two}, func(s int64) *model {
		b := &meta.BaggedModel{RandomFeatures: 2}
		for i := 0; i < 3; i++ {
			b.AddModel(trees.NewID3DecisionTree(0))
		}
		return &model{b.Fit, b.Predict, b.Save, b.Load}
	}},
	{"svc", shape{floats: 2, classes: two, floatClass: true}, func(s int64) *model {
		c, err := linear_models.NewLinearSVC("l2", "l2", true, 1.0, 1e-4)
		must(err)
		return wrap(c)
	}},
	{"multi-svc", shape{floats: 2, classes: three}, func(s int64) *model {
		return wrap(ensemble.NewMultiLinearSVC("l1", "l2", true, 1.0, 1e-4, nil))
	}},
	{"one-vs-all", shape{floats: 2, classes: three}, func(s int64) *model {
		m := meta.NewOneVsAllModel(func(string) base.Classifier {
			c, err := linear_models.NewLinearSVC("l2", "l2", true, 1.0, 1e-4)
			must(err)
			return c
		})
		return &model{m.Fit, m.Predict, m.Save, m.Load}
	}},
}
