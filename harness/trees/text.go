package main

import (
	"fmt"
	"math"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/trees"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// line is one line of a printed tree.
func line(ind int, kind string) vh.Ev {
	return vh.Ev{"ind": ind, "kind": kind, "attr": 0, "thr2": 0, "op": "", "key": 0, "ans": 0}
}

var (
	memberLine = regexp.MustCompile(`^\t?\d+: (ID3DecisionTree|RandomTree)\((.*)$`)
	ruleLine   = regexp.MustCompile(`^Rule\(DecisionTreeRule\((.*?)( <= (-?[0-9.]+))?\)\)+$`)
	leafLine   = regexp.MustCompile(`^Leaf\(([^()]*)\)+$`)
)

func printed2(s string) int {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return vh.BadInt
	}
	return whole(2 * f)
}

// texts reads the trees printed in s.
func (d *data) texts(s string) [][]vh.Ev {
	out := make([][]vh.Ev, 0)
	ruleAt := map[int]int{} // the feature of the rule at an indentation
	for _, l := range strings.Split(s, "\n") {
		if m := memberLine.FindStringSubmatch(l); m != nil {
			out, l = append(out, nil), m[2]
		} else if len(out) == 0 {
			for _, p := range []string{"ID3DecisionTree(", "RandomTree("} {
				l = strings.TrimPrefix(l, p)
			}
			if !strings.HasPrefix(l, "Rule(") && !strings.HasPrefix(l, "Leaf(") {
				continue // the head of an ensemble
			}
			out = append(out, nil)
		}
		if strings.Trim(l, ")") == "" {
			continue
		}
		ind := len(l) - len(strings.TrimLeft(l, "\t"))
		l = l[ind:]
		var e vh.Ev
		if m := ruleLine.FindStringSubmatch(l); m != nil {
			e = line(ind, "rule")
			k := 99
			for i, a := range d.attrs {
				if a.GetName() == m[1] {
					k = i + 1
				}
			}
			e["attr"], e["op"] = k, "eq"
			ruleAt[ind] = k
			if m[2] != "" {
				e["op"], e["thr2"] = "le", printed2(m[3])
			}
		} else if m := leafLine.FindStringSubmatch(l); m != nil {
			e = line(ind, "leaf")
			e["ans"] = d.class(m[1])
		} else {
			e = line(ind-1, "branch")
			key := -1
			if k, ok := ruleAt[ind-1]; ok && k != 99 {
				if _, cat := d.attrs[k-1].(*base.CategoricalAttribute); cat {
					for j := 0; j < 400; j++ {
						if treeLabel(j) == l {
							key = j
						}
					}
				} else if n, err := strconv.Atoi(l); err == nil {
					key = n
				}
			}
			e["key"] = key
		}
		out[len(out)-1] = append(out[len(out)-1], e)
	}
	return out
}

// cartText reads a printed CART tree; answers are scaled by unit.
func cartText(s string, unit float64) []vh.Ev {
	out := make([]vh.Ev, 0)
	for _, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		ind := len(l) - len(strings.TrimLeft(l, " "))
		f := strings.Fields(l)
		e := line(ind/2, "?")
		switch {
		case ind%2 == 1:
		case len(f) == 4 && f[0] == "Feature" && f[2] == "<":
			e["kind"], e["op"], e["thr2"] = "rule", "lt", printed2(f[3])
			k, err := strconv.Atoi(f[1])
			must(err)
			e["attr"] = k + 1
		case len(f) == 2 && f[0] == "--->" && (f[1] == "True" || f[1] == "False"):
			e["kind"], e["key"] = "branch", map[string]int{"True": 0, "False": 1}[f[1]]
		case len(f) == 2 && f[0] == "PREDICT":
			v, err := strconv.ParseFloat(f[1], 64)
			must(err)
			e["kind"], e["ans"] = "leaf", whole(math.Floor(v*unit+0.5))
		}
		out = append(out, e)
	}
	return out
}

type treeModel interface {
	fmt.Stringer
	Save(string) error
	Load(string) error
	Predict(base.FixedDataGrid) (base.FixedDataGrid, error)
}

func printedTree(t *vh.T) {
	rng := t.Rng
	sh := anyShape(rng)
	sh.scaled, sh.mult = false, 0
	n := 2 + rng.Intn(20)
	width := anyWidth(rng, 4)
	if rng.Intn(8) == 0 {
		n, width = 40+rng.Intn(60), 10+rng.Intn(6) // deep trees
	}
	d := newShaped(rng, n+rng.Intn(10), width, sh)
	train, test := d.divide(rng, n, 1+rng.Intn(12))
	var m, other treeModel
	var prune func(base.FixedDataGrid)
	members := 1
	k := 1 + rng.Intn(len(d.attrs))
	switch rng.Intn(6) {
	case 0:
		x := trees.NewRandomTree(k)
		must(x.Fit(train.grid))
		m, other, prune = x, trees.NewRandomTree(k), x.Prune
	case 1:
		members = 2 + rng.Intn(12)
		x := ensemble.NewRandomForest(members, k)
		must(x.Fit(train.grid))
		m, other = x, ensemble.NewRandomForest(members, k)
	case 2:
		members = 2 + rng.Intn(12)
		x, y := &meta.BaggedModel{}, &meta.BaggedModel{}
		for i := 0; i < members; i++ {
			if i%2 == 0 {
				x.AddModel(trees.NewRandomTree(k))
				y.AddModel(trees.NewRandomTree(k))
			} else {
				x.AddModel(trees.NewID3DecisionTree(0))
				y.AddModel(trees.NewID3DecisionTree(0))
			}
		}
		x.Fit(train.grid)
		m, other = x, y
	default:
		x := trees.NewID3DecisionTreeFromRule(0, rules[ruleNames[rng.Intn(3)]])
		must(x.Fit(train.grid))
		m, other, prune = x, trees.NewID3DecisionTree(0), x.Root.Prune
		if rng.Intn(2) == 0 {
			m, other = x.Root, &trees.DecisionTreeNode{}
		}
	}
	show := func(e string, m treeModel) {
		ts := d.texts(m.String())
		for i := range ts {
			if ts[i] == nil {
				ts[i] = []vh.Ev{}
			}
		}
		t.Log(vh.Ev{"e": e, "texts": ts, "members": members})
	}
	show("Printed", m)
	ask := func(m treeModel) {
		for _, g := range []*data{train, test} {
			p, err := m.Predict(g.grid)
			must(err)
			t.Log(vh.Ev{"e": "Predict", "rows": g.rows, "got": g.classes(p), "tol": 0})
		}
	}
	ask(m)
	show("Again", m)
	if prune != nil && rng.Intn(2) == 0 {
		prune(test.grid)
		show("Printed", m)
		ask(m)
	}
	if rng.Intn(3) == 0 {
		p := filepath.Join(t.Dir, "tree")
		must(m.Save(p))
		must(other.Load(p))
		show("Again", other)
		ask(other)
	}
}

func printedCart(t *vh.T) {
	rng := t.Rng
	n, feats := 1+rng.Intn(25), 1+rng.Intn(4)
	if rng.Intn(12) == 0 {
		feats = 11 + rng.Intn(20)
	}
	rows, test := numRows(rng, n, feats), numRows(rng, 1+rng.Intn(15), feats)
	limit := int64(rng.Intn(7) - 1)
	noise, pos, st := rng.Intn(3) == 0, rng.Intn(feats+1), plain(feats)
	target := make([]float64, n)
	labels := []int64{7, -3, 5, 12}
	real := rng.Intn(2) == 0
	for i := range target {
		switch {
		case real:
			target[i] = float64(rng.Intn(41)-20) * 0.5
		case rng.Intn(3) > 0:
			target[i] = float64(labels[(rows[i][0]+rows[i][feats-1]+12)%4])
		default:
			target[i] = float64(labels[rng.Intn(4)])
		}
	}
	grid := func(q [][]int) base.FixedDataGrid {
		return numGrid(st, q, feats, make([]float64, len(q)), noise, pos)
	}
	var s fmt.Stringer
	var predict func(q [][]int) []int
	unit, tol := 1.0, 0
	if real {
		unit, tol = 1000, 1
		x := trees.NewDecisionTreeRegressor([]string{"mse", "mae"}[rng.Intn(2)], limit)
		must(x.Fit(numGrid(st, rows, feats, target, noise, pos)))
		s = x
		predict = func(q [][]int) (out []int) {
			for _, v := range x.Predict(grid(q)) {
				out = append(out, whole(math.Floor(v*unit+0.5)))
			}
			return
		}
	} else {
		x := trees.NewDecisionTreeClassifier([]string{"gini", "entropy"}[rng.Intn(2)], limit, labels)
		must(x.Fit(numGrid(st, rows, feats, target, noise, pos)))
		s = x
		predict = func(q [][]int) (out []int) {
			for _, v := range x.Predict(grid(q)) {
				out = append(out, int(v))
			}
			return
		}
	}
	t.Log(vh.Ev{"e": "Printed", "texts": [][]vh.Ev{cartText(s.String(), unit)}, "members": 1})
	for _, q := range [][][]int{rows, test} {
		t.Log(vh.Ev{"e": "Predict", "rows": q, "got": predict(q), "tol": tol})
	}
	t.Log(vh.Ev{"e": "Again", "texts": [][]vh.Ev{cartText(s.String(), unit)}, "members": 1})
}

func init() {
	vh.Register("C49", func(c *vh.Ctx) {
		for i := 0; i < c.N(700, 12000); i++ {
			c.Case("tree", printedTree)
			c.Case("cart", printedCart)
		}
		for _, what := range []string{"answer", "text", "again"} {
			what := what
			c.Canary(what, printedCart, func(evs []vh.Ev) []vh.Ev {
				switch what {
				case "answer":
					evs[1]["got"].([]interface{})[0] = 99999.0
				case "text":
					t := evs[0]["texts"].([]interface{})[0].([]interface{})
					t[len(t)-1].(map[string]interface{})["ind"] = 0.0
				default:
					t := evs[3]["texts"].([]interface{})[0].([]interface{})
					t[0].(map[string]interface{})["attr"] = 77.0
				}
				return evs
			})
		}
	})
}
