package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// data is a labelled data set with small integer cells.
type data struct {
	attrs  []base.Attribute // features
	kinds  []string         // "num" or "cat"
	labels []string         // class labels
	cls    base.Attribute
	grid   base.FixedDataGrid
	rows   [][]int
	target []int
	mult   int   // how often the grid has each of the rows
	off    []int // the cells of a numeric column are stored as (off + x) * 2^exp
	exp    []int
}

func treeLabel(k int) string {
	if k < 3 {
		return []string{"a", "b b", "c"}[k]
	}
	return fmt.Sprintf("l%d", k)
}

// shape says what is unusual about a data set.
type shape struct {
	labels  int  // of its categorical features, at most (0: three)
	classes int  // 0: two or three
	mult    int  // how often each row is there (0: once)
	scaled  bool // numbers far from one, or next to each other
}

func newData(rng *rand.Rand, n, feats int) *data { return newShaped(rng, n, feats, shape{}) }

// anyShape: sometimes many labels, many classes, every row many times, or unusual numbers.
func anyShape(rng *rand.Rand) shape {
	s := shape{}
	if rng.Intn(6) == 0 {
		s.labels = 4 + rng.Intn(300)
	}
	if rng.Intn(6) == 0 {
		s.classes = 4 + rng.Intn(40)
	}
	if rng.Intn(6) == 0 {
		s.mult = 2 + rng.Intn(60)
	}
	s.scaled = rng.Intn(3) == 0
	return s
}

// anyWidth: now and then many features.
func anyWidth(rng *rand.Rand, few int) int {
	if rng.Intn(12) == 0 {
		return 20 + rng.Intn(60)
	}
	return 1 + rng.Intn(few)
}

// newShaped makes n rows. Values repeat; learnable ties the class to the features.
func newShaped(rng *rand.Rand, n, feats int, sh shape) *data {
	d := &data{mult: 1, off: make([]int, feats), exp: make([]int, feats)}
	if sh.mult > 0 {
		d.mult = sh.mult
	}
	g := base.NewDenseInstances()
	if sh.scaled {
		for k := range d.off {
			switch rng.Intn(6) {
			case 0, 1: // neighbouring floating point numbers
				d.off[k], d.exp[k] = 1<<52, []int{-52, -54, 3}[rng.Intn(3)]
			case 2:
				d.exp[k] = []int{-300, -20, 40, 300}[rng.Intn(4)]
			case 3: // whose sums are out of range
				d.exp[k] = 1021
			case 4:
				d.off[k] = []int{1000, -1000000, 1 << 30}[rng.Intn(3)]
			}
		}
	}
	pos := rng.Intn(feats + 1)
	for i := 0; i <= feats; i++ {
		if i == pos {
			if rng.Intn(8) == 0 {
				d.cls, d.labels = base.NewBinaryAttribute("class"), []string{"0", "1"}
			} else {
				c := base.NewCategoricalAttribute()
				c.SetName("class")
				d.labels = []string{"yes", "no", "maybe"}[:2+rng.Intn(2)]
				if sh.classes > 3 {
					d.labels = []string{"yes", "no", "maybe"}
				}
				for k := 3; k < sh.classes; k++ {
					d.labels = append(d.labels[:k:k], fmt.Sprintf("k%d", k))
				}
				for _, l := range d.labels {
					c.GetSysValFromString(l)
				}
				d.cls = c
			}
			g.AddAttribute(d.cls)
			must(g.AddClassAttribute(d.cls))
		}
		if i == feats {
			break
		}
		name, kind := fmt.Sprintf("f%d", i), "cat"
		var a base.Attribute
		switch rng.Intn(5) {
		case 0, 1:
			a, kind = base.NewFloatAttribute(name), "num"
		case 2:
			a = base.NewBinaryAttribute(name)
		default:
			c := base.NewCategoricalAttribute()
			c.SetName(name)
			for k := 0; k < 3 || k < sh.labels; k++ {
				c.GetSysValFromString(treeLabel(k))
			}
			a = c
		}
		g.AddAttribute(a)
		d.attrs, d.kinds = append(d.attrs, a), append(d.kinds, kind)
	}
	left := n * d.mult
	if rng.Intn(3) == 0 {
		left = left / 2
		g.Extend(n*d.mult - left)
	}
	g.Extend(left)
	spread := make([]int, feats)
	for k := range spread {
		spread[k] = 1 + rng.Intn(4)
	}
	csp, err := g.GetAttribute(d.cls)
	must(err)
	learnable := rng.Intn(2) == 0
	for r := 0; r < n; r++ {
		row, sum := make([]int, feats), 0
		for k, a := range d.attrs {
			sp, err := g.GetAttribute(a)
			must(err)
			set := func(b []byte) {
				for i := 0; i < d.mult; i++ {
					g.Set(sp, r+n*i, b)
				}
			}
			switch a.(type) {
			case *base.FloatAttribute:
				row[k] = rng.Intn(2*spread[k]) - spread[k]
				set(base.PackFloatToBytes(math.Ldexp(float64(d.off[k]+row[k]), d.exp[k])))
			case *base.BinaryAttribute:
				row[k] = rng.Intn(1 + (spread[k]+1)/3)
				set([]byte{byte(row[k])})
			default:
				m := spread[k]
				if m > 3 {
					m = 3
				}
				row[k] = rng.Intn(m)
				if sh.labels > 3 && spread[k] > 1 { // the last ones rather than the first ones
					row[k] = sh.labels - 1 - row[k]*(1+rng.Intn(2)*(sh.labels/4-1))
				}
				set(base.PackU64ToBytes(uint64(row[k])))
			}
			sum += row[k]
		}
		cl := rng.Intn(len(d.labels))
		if learnable && rng.Intn(5) > 0 {
			cl = ((sum % len(d.labels)) + len(d.labels)) % len(d.labels)
		}
		for i := 0; i < d.mult; i++ {
			if _, ok := d.cls.(*base.BinaryAttribute); ok {
				g.Set(csp, r+n*i, []byte{byte(cl)})
			} else {
				g.Set(csp, r+n*i, base.PackU64ToBytes(uint64(cl)))
			}
		}
		d.rows, d.target = append(d.rows, row), append(d.target, cl+1)
	}
	d.grid = g
	return d
}

// pick shows some of the rows, in some column order.
func (d *data) pick(rng *rand.Rand, sel []int) *data {
	as := d.grid.AllAttributes()
	sub := as
	if rng.Intn(2) == 0 {
		sub = nil
		for _, i := range rng.Perm(len(as)) {
			sub = append(sub, as[i])
		}
	}
	o := *d
	var stored []int
	for i := 0; i < d.mult; i++ {
		for _, r := range sel {
			stored = append(stored, r+len(d.rows)*i)
		}
	}
	o.grid = base.NewInstancesViewFromVisible(d.grid, stored, sub)
	o.rows, o.target = make([][]int, len(sel)), make([]int, len(sel))
	for i, r := range sel {
		o.rows[i], o.target[i] = d.rows[r], d.target[r]
	}
	return &o
}

// divide into rows to train on and rows to predict; some of the latter may be among the former.
func (d *data) divide(rng *rand.Rand, train, test int) (*data, *data) {
	n := len(d.rows)
	p := rng.Perm(n)
	a := append([]int{}, p[:train]...)
	for len(a) > 0 && rng.Intn(4) == 0 {
		a[rng.Intn(len(a))] = a[rng.Intn(len(a))]
	}
	b := make([]int, test)
	for i := range b {
		b[i] = rng.Intn(n)
	}
	return d.pick(rng, a), d.pick(rng, b)
}

func (d *data) class(label string) int {
	for i, l := range d.labels {
		if l == label {
			return i + 1
		}
	}
	return 0
}

// classes a prediction gives the rows; the same for every copy of one.
func (d *data) classes(g base.FixedDataGrid) []int {
	_, n := g.Size()
	out := make([]int, n)
	for i := range out {
		out[i] = d.class(base.GetClass(g, i))
	}
	m := n / d.mult
	if n%d.mult != 0 {
		return out
	}
	for i := range out {
		if out[i] != out[i%m] {
			return out
		}
	}
	return out[:m]
}

func (d *data) attr(a base.Attribute) int {
	for i, b := range d.attrs {
		if a != nil && a.Equals(b) {
			return i + 1
		}
	}
	return 99
}

// thr2 is twice a threshold, in terms of the integers of column k.
func (d *data) thr2(k int, f float64) int { return thr2(d.off[k], d.exp[k], f) }

func thr2(off, exp int, f float64) int {
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return vh.BadInt
	}
	x := new(big.Float).SetPrec(200).SetFloat64(f)
	x.SetMantExp(x, 1-exp)
	x.Sub(x, big.NewFloat(float64(2*off)))
	y, _ := x.Float64()
	return whole(y)
}

// whole is the integer a number is, up to rounding.
func whole(f float64) int {
	r := math.Floor(f + 0.5)
	if math.IsNaN(f) || math.Abs(r-f) > 1e-9 || math.Abs(r) > 1e6 {
		return vh.BadInt
	}
	return int(r)
}

// tree lists the nodes of a tree, the root first.
func (d *data) tree(n *trees.DecisionTreeNode) []vh.Ev {
	out := make([]vh.Ev, 0)
	var walk func(n *trees.DecisionTreeNode) int
	walk = func(n *trees.DecisionTreeNode) int {
		i := len(out)
		e := vh.Ev{"attr": 0, "thr2": 0, "cls": d.class(n.Class), "kids": []vh.Ev{}}
		dist := make([]int, len(d.labels))
		for l, k := range n.ClassDist {
			if c := d.class(l); c > 0 {
				dist[c-1] = k / d.mult
				if k%d.mult != 0 {
					dist[c-1] = vh.BadInt
				}
			}
		}
		e["dist"] = dist
		out = append(out, e)
		if n.Children != nil {
			k := d.attr(n.SplitRule.SplitAttr)
			e["attr"] = k
			if k != 99 && d.kinds[k-1] == "num" {
				e["thr2"] = d.thr2(k-1, n.SplitRule.SplitVal)
			}
			kids := make([]vh.Ev, 0)
			for name, c := range n.Children {
				key := -1
				if _, ok := n.SplitRule.SplitAttr.(*base.CategoricalAttribute); ok {
					for j := 0; j < len(n.SplitRule.SplitAttr.(*base.CategoricalAttribute).GetValues()); j++ {
						if treeLabel(j) == name {
							key = j
						}
					}
				} else if name == "0" || name == "1" {
					key = int(name[0] - '0')
				}
				kids = append(kids, vh.Ev{"key": key, "id": walk(c) + 1})
			}
			e["kids"] = kids
		}
		return i
	}
	walk(n)
	return out
}

func (d *data) load(t *vh.T) {
	t.Log(vh.Ev{"e": "Data", "typ": d.kinds, "rows": d.rows, "cls": d.target})
}

var rules = map[string]trees.RuleGenerator{"gain": &trees.InformationGainRuleGenerator{}, "ratio": &trees.InformationGainRatioRuleGenerator{}, "gini": &trees.GiniCoefficientRuleGenerator{}}
var ruleNames = []string{"gain", "ratio", "gini"}

// grow trains a tree on the data in one of the ways there are.
func (d *data) grow(rng *rand.Rand) (*trees.DecisionTreeNode, string, int) {
	if rng.Intn(3) == 0 {
		k := 1 + rng.Intn(len(d.attrs)+1)
		rt := trees.NewRandomTree(k)
		must(rt.Fit(d.grid))
		return rt.Root, "gain", k
	}
	rule := ruleNames[rng.Intn(3)]
	k := len(d.attrs)
	switch {
	case rng.Intn(2) == 0:
		return trees.InferID3Tree(d.grid, rules[rule]), rule, k
	case rule == "gain":
		t := trees.NewID3DecisionTree(0)
		must(t.Fit(d.grid))
		return t.Root, rule, k
	}
	t := trees.NewID3DecisionTreeFromRule(0, rules[rule])
	must(t.Fit(d.grid))
	return t.Root, rule, k
}

func init() {
	vh.Register("C19", func(c *vh.Ctx) {
		growing := func(t *vh.T, n int, sh shape) {
			rng := t.Rng
			train, test := newShaped(rng, n+rng.Intn(8), anyWidth(rng, 4), sh).divide(rng, n, rng.Intn(8))
			train.load(t)
			root, _, k := train.grow(rng)
			t.Log(vh.Ev{"e": "Grow", "tree": train.tree(root), "k": k, "rule": ""})
			for _, g := range []*data{train, test} {
				p, err := root.Predict(g.grid)
				must(err)
				t.Log(vh.Ev{"e": "Predict", "rows": g.rows, "got": g.classes(p)})
			}
			one := train.pick(rng, []int{rng.Intn(n)})
			one.grid = base.NewInstancesViewFromVisible(one.grid, []int{0}, one.grid.AllAttributes())
			id3 := &trees.ID3DecisionTree{Root: root}
			probs, err := id3.PredictProba(one.grid)
			must(err)
			ps := make([]vh.Ev, 0)
			for _, p := range probs {
				ps = append(ps, vh.Ev{"cls": train.class(p.ClassValue), "share": int(math.Floor(p.Probability*1e6 + 0.5))})
			}
			t.Log(vh.Ev{"e": "Proba", "row": one.rows[0], "probs": ps})
		}
		grow := func(t *vh.T) { growing(t, 1+t.Rng.Intn(14), anyShape(t.Rng)) }
		for i := 0; i < c.N(600, 12000); i++ {
			c.Case("grow", grow)
		}
		for i := 0; i < c.N(24, 500); i++ {
			c.Case("grow-many", func(t *vh.T) {
				sh := anyShape(t.Rng)
				sh.mult = 0
				growing(t, 257+t.Rng.Intn(100), sh)
			})
		}
		for i := 0; i < 6; i++ {
			k := i % 3
			c.Canary("tree", grow, func(evs []vh.Ev) []vh.Ev {
				root := evs[1]["tree"].([]interface{})[0].(map[string]interface{})
				switch k {
				case 0:
					root["cls"] = 9.0
				case 1:
					d := root["dist"].([]interface{})
					d[0] = d[0].(float64) + 1
				default:
					evs[2]["got"].([]interface{})[0] = 9.0
				}
				return evs
			})
		}
	})
	vh.Register("C20", func(c *vh.Ctx) {
		pruning := func(t *vh.T, many bool) {
			rng := t.Rng
			n := 2 + rng.Intn(12)
			sh := anyShape(rng)
			if many {
				sh.mult = 0
			}
			train, test := newShaped(rng, n+2+rng.Intn(12), anyWidth(rng, 4), sh).divide(rng, n, 1+rng.Intn(10))
			if many { // nearly all of them the same: a branch decides less than one in a hundred
				sel := make([]int, 110+rng.Intn(150))
				common := rng.Intn(n)
				for i := range sel {
					sel[i] = common
				}
				for i := 0; i < n; i++ {
					sel[rng.Intn(len(sel))] = i
				}
				test = train.pick(rng, sel)
			}
			train.load(t)
			root, _, k := train.grow(rng)
			t.Log(vh.Ev{"e": "Grow", "tree": train.tree(root), "k": k, "rule": ""})
			for i := 0; i < 2; i++ {
				if i == 1 && (many || rng.Intn(2) == 0) { // again, with other rows
					_, test = train.divide(rng, 1, 1+rng.Intn(6))
				}
				before, err := root.Predict(test.grid)
				must(err)
				if rng.Intn(2) == 0 {
					root.Prune(test.grid)
				} else {
					rt := trees.NewRandomTree(1)
					rt.Root = root
					rt.Prune(test.grid)
				}
				after, err := root.Predict(test.grid)
				must(err)
				t.Log(vh.Ev{"e": "Prune", "rows": test.rows, "cls": test.target, "before": test.classes(before), "after": test.classes(after), "tree": train.tree(root)})
			}
		}
		prune := func(t *vh.T) { pruning(t, false) }
		for i := 0; i < c.N(800, 15000); i++ {
			c.Case("prune", prune)
		}
		for i := 0; i < c.N(80, 1500); i++ {
			c.Case("prune-many", func(t *vh.T) { pruning(t, true) })
		}
		for i := 0; i < 4; i++ {
			c.Canary("after", prune, func(evs []vh.Ev) []vh.Ev {
				evs[2]["after"].([]interface{})[0] = 9.0
				return evs
			})
		}
	})
	vh.Register("C21", func(c *vh.Ctx) {
		rule := func(t *vh.T) {
			rng := t.Rng
			n := 1 + rng.Intn(16)
			d, _ := newShaped(rng, n+rng.Intn(4), anyWidth(rng, 5), anyShape(rng)).divide(rng, n, 0)
			d.load(t)
			for s := 0; s < 4; s++ {
				name, k := ruleNames[rng.Intn(3)], len(d.attrs)
				all := make([]int, k)
				for i := range all {
					all[i] = i + 1
				}
				var got *trees.DecisionTreeRule
				switch {
				case s == 0:
					name, k = "gain", 1+rng.Intn(k+1)
					got = trees.NewRandomTree(k).Rule.GenerateSplitRule(d.grid)
				case s == 1:
					all = rng.Perm(len(d.attrs))[:1+rng.Intn(k)]
					var offered []base.Attribute
					for i := range all {
						offered = append(offered, d.attrs[all[i]])
						all[i]++
					}
					switch name {
					case "gain":
						got = new(trees.InformationGainRuleGenerator).GetSplitRuleFromSelection(offered, d.grid)
					case "ratio":
						got = new(trees.InformationGainRatioRuleGenerator).GetSplitRuleFromSelection(offered, d.grid)
					default:
						got = new(trees.GiniCoefficientRuleGenerator).GetSplitRuleFromSelection(offered, d.grid)
					}
				default:
					got = rules[name].GenerateSplitRule(d.grid)
				}
				a, thr := 0, 0
				if got != nil && got.SplitAttr != nil {
					a = d.attr(got.SplitAttr)
					if a != 99 && d.kinds[a-1] == "num" {
						thr = d.thr2(a-1, got.SplitVal)
					}
				}
				t.Log(vh.Ev{"e": "Rule", "rule": name, "k": k, "offered": all, "attr": a, "thr2": thr})
			}
		}
		// What a random tree's rule finds when asked again and again.
		draws := func(t *vh.T) {
			rng := t.Rng
			n := 6 + rng.Intn(11)
			d, _ := newShaped(rng, n, 2+rng.Intn(3), shape{}).divide(rng, n, 0)
			d.load(t)
			for k := 1; k <= len(d.attrs); k++ {
				rule := trees.NewRandomTree(k).Rule
				picked, seen := []interface{}{}, map[[2]int]bool{}
				for i := 0; i < 200; i++ {
					got := rule.GenerateSplitRule(d.grid)
					a, thr := 0, 0
					if got != nil && got.SplitAttr != nil {
						a = d.attr(got.SplitAttr)
						if a != 99 && d.kinds[a-1] == "num" {
							thr = d.thr2(a-1, got.SplitVal)
						}
					}
					if at := [2]int{a, thr}; !seen[at] {
						seen[at] = true
						picked = append(picked, vh.Ev{"attr": a, "thr2": thr})
					}
				}
				t.Log(vh.Ev{"e": "Draws", "k": k, "picked": picked})
			}
		}
		grown := func(t *vh.T) {
			rng := t.Rng
			n := 2 + rng.Intn(15)
			d, _ := newShaped(rng, n+rng.Intn(4), anyWidth(rng, 5), anyShape(rng)).divide(rng, n, 0)
			d.load(t)
			root, name, k := d.grow(rng)
			t.Log(vh.Ev{"e": "Grow", "tree": d.tree(root), "k": k, "rule": name})
		}
		for i := 0; i < c.N(500, 10000); i++ {
			c.Case("rule", rule)
		}
		for i := 0; i < c.N(500, 10000); i++ {
			c.Case("tree", grown)
		}
		for i := 0; i < c.N(120, 2500); i++ {
			c.Case("draws", draws)
		}
		for i := 0; i < 4; i++ {
			c.Canary("attr", rule, func(evs []vh.Ev) []vh.Ev {
				evs[1]["attr"] = 99.0
				return evs
			})
		}
	})
}
