package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// numeric is a data set of whole-numbered features with a numeric class column.
type numeric struct {
	rows   [][]int
	target []float64
	grid   base.FixedDataGrid
}

// store is how the whole numbers of a grid are stored: those of feature k as (off + x) * 2^exp, every row mult times.
type store struct {
	off, exp []int
	mult     int
	toff     int // of the class column
	texp     int
}

func plain(feats int) store { return store{make([]int, feats), make([]int, feats), 1, 0, 0} }

func anyStore(rng *rand.Rand, feats int) store {
	st := plain(feats)
	if rng.Intn(5) == 0 {
		st.mult = 2 + rng.Intn(60)
	}
	if rng.Intn(3) > 0 {
		return st
	}
	for k := range st.off {
		switch rng.Intn(6) {
		case 0, 1: // neighbouring floating point numbers
			st.off[k], st.exp[k] = 1<<52, []int{-52, -54, 3}[rng.Intn(3)]
		case 2:
			st.exp[k] = []int{-300, -20, 40, 300}[rng.Intn(4)]
		case 3: // whose sums are out of range
			st.exp[k] = 1021
		case 4:
			st.off[k] = []int{1000, -1000000, 1 << 30}[rng.Intn(3)]
		}
	}
	return st
}

// thr2 is twice a threshold, in terms of the integers of feature k.
func (st store) thr2(k int, f float64) int {
	if k < 0 || k >= len(st.off) {
		return vh.BadInt
	}
	return thr2(st.off[k], st.exp[k], f)
}

// numGrid holds rows and target, with a column of another kind now and then.
func numGrid(st store, rows [][]int, feats int, target []float64, noise bool, pos int) base.FixedDataGrid {
	g := base.NewDenseInstances()
	cls := base.NewFloatAttribute("class")
	fs := make([]base.Attribute, feats)
	k := base.NewCategoricalAttribute()
	k.SetName("noise")
	k.GetSysValFromString("x")
	for i := 0; i <= feats; i++ {
		if i == pos {
			g.AddAttribute(cls)
		}
		if i == 1 && noise {
			g.AddAttribute(k)
		}
		if i < feats {
			fs[i] = base.NewFloatAttribute(fmt.Sprintf("f%d", i))
			g.AddAttribute(fs[i])
		}
	}
	must(g.AddClassAttribute(cls))
	g.Extend(len(rows) * st.mult)
	csp, err := g.GetAttribute(cls)
	must(err)
	for r := range rows {
		for m := 0; m < st.mult; m++ {
			for i, a := range fs {
				sp, err := g.GetAttribute(a)
				must(err)
				g.Set(sp, r+m*len(rows), base.PackFloatToBytes(math.Ldexp(float64(st.off[i]+rows[r][i]), st.exp[i])))
			}
			g.Set(csp, r+m*len(rows), base.PackFloatToBytes(math.Ldexp(target[r]+float64(st.toff), st.texp)))
		}
	}
	return g
}

// turned shows a grid with its columns in another order, mostly.
func turned(rng *rand.Rand, g base.FixedDataGrid) base.FixedDataGrid {
	_, rows := g.Size()
	as := append([]base.Attribute{}, g.AllAttributes()...)
	rng.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	switch rng.Intn(3) {
	case 0: // a view
		all := make([]int, rows)
		for i := range all {
			all[i] = i
		}
		return base.NewInstancesViewFromVisible(g, all, as)
	case 1: // a copy, with attributes of its own
		d := base.NewDenseInstances()
		cls := g.AllClassAttributes()[0].GetName()
		var from, to []base.AttributeSpec
		for _, a := range as {
			sp, err := g.GetAttribute(a)
			must(err)
			if _, ok := a.(*base.FloatAttribute); ok {
				a = base.NewFloatAttribute(a.GetName())
			}
			from, to = append(from, sp), append(to, d.AddAttribute(a))
			if a.GetName() == cls {
				must(d.AddClassAttribute(a))
			}
		}
		must(d.Extend(rows))
		for r := 0; r < rows; r++ {
			for k := range from {
				d.Set(to[k], r, append([]byte{}, g.Get(from[k], r)...))
			}
		}
		return d
	}
	return g
}

// once leaves one answer per row, if its copies all got that one.
func (st store) once(got []int) []int {
	n := len(got) / st.mult
	if len(got)%st.mult != 0 {
		return got
	}
	for i := range got {
		if got[i] != got[i%n] {
			return got
		}
	}
	return got[:n]
}

func numRows(rng *rand.Rand, n, feats int) [][]int {
	out := make([][]int, n)
	spread := make([]int, feats)
	for i := range spread {
		spread[i] = 1 + rng.Intn(6)
	}
	for r := range out {
		out[r] = make([]int, feats)
		for i := range out[r] {
			out[r][i] = rng.Intn(spread[i]) - spread[i]/2
		}
	}
	return out
}

// cartNodes lists the nodes of a CART tree, the root first; answer projects what a leaf answers.
func cartNodes(st store, root interface{}, left, right string, answer func(v reflect.Value) int) []vh.Ev {
	out := make([]vh.Ev, 0)
	var walk func(v reflect.Value) int
	walk = func(v reflect.Value) int {
		v = v.Elem()
		e := vh.Ev{"feat": int(v.FieldByName("Feature").Int()) + 1, "thr2": st.thr2(int(v.FieldByName("Feature").Int()), v.FieldByName("Threshold").Float()),
			"ll": answer(v.FieldByName(left)), "rl": answer(v.FieldByName(right)), "left": 0, "right": 0}
		out = append(out, e)
		i := len(out)
		if l := v.FieldByName("Left"); !l.IsNil() {
			e["left"] = walk(l)
		}
		if r := v.FieldByName("Right"); !r.IsNil() {
			e["right"] = walk(r)
		}
		return i
	}
	walk(reflect.ValueOf(root))
	return out
}

func allNum(n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = "num"
	}
	return out
}

func scaled(f float64) int {
	v := f * 360360
	r := math.Floor(v + 0.5)
	if math.IsNaN(f) || math.Abs(r) > 1e9 || math.Abs(v-r) > 1e-3 {
		return vh.BadInt
	}
	return int(r)
}

func init() {
	labelSets := [][]int64{{0, 1}, {1, 2}, {2, 0, 1}, {7, -3, 5}, {3}, {0, 1, 2, 3}}
	classify := func(t *vh.T) {
		rng := t.Rng
		n, feats := 1+rng.Intn(14), 1+rng.Intn(3)
		if rng.Intn(6) == 0 {
			n, feats = 1+rng.Intn(20), 1+rng.Intn(6)
		}
		if rng.Intn(20) == 0 {
			feats = 15 + rng.Intn(30)
		}
		st := anyStore(rng, feats)
		labels := labelSets[rng.Intn(len(labelSets))]
		index := func(l int64) int {
			for i, x := range labels {
				if x == l {
					return i + 1
				}
			}
			return 0
		}
		crit := []string{"gini", "entropy", "Gini", "ENTROPY"}[rng.Intn(4)]
		limit := rng.Intn(6) - 1
		noise, pos := rng.Intn(3) == 0, rng.Intn(feats+1)
		mk := func(rows [][]int, learn bool) (base.FixedDataGrid, []int) {
			cls, target := make([]int, len(rows)), make([]float64, len(rows))
			for r := range rows {
				k := rng.Intn(len(labels))
				if learn {
					k = (rows[r][0] + rows[r][feats-1] + 12) % len(labels)
				}
				cls[r], target[r] = k+1, float64(labels[k])
			}
			return numGrid(st, rows, feats, target, noise, pos), cls
		}
		rows := numRows(rng, n, feats)
		if rng.Intn(25) == 0 { // many distinct values
			st = plain(feats)
			n = 41 + rng.Intn(6)
			rows = numRows(rng, n, feats)
			for r, v := range rng.Perm(n) {
				rows[r][0] = v
			}
			crit, limit = []string{"gini", "Gini"}[rng.Intn(2)], 1+rng.Intn(2)
		}
		grid, cls := mk(rows, rng.Intn(2) == 0)
		if n > 40 && len(labels) > 1 { // one cut is better than the others, anywhere
			at, k := rng.Intn(n), rng.Intn(len(labels))
			target := make([]float64, n)
			for r := range rows {
				if rows[r][0] >= at && rng.Intn(8) > 0 {
					cls[r] = k + 1
				} else {
					cls[r] = (k+1)%len(labels) + 1
				}
				target[r] = float64(labels[cls[r]-1])
			}
			grid = numGrid(st, rows, feats, target, noise, pos)
		}
		if st.mult == 1 && rng.Intn(4) == 0 {
			sel := make([]int, n)
			r2, c2 := make([][]int, n), make([]int, n)
			for i := range sel {
				sel[i] = rng.Intn(n)
				r2[i], c2[i] = rows[sel[i]], cls[sel[i]]
			}
			grid, rows, cls = base.NewInstancesViewFromVisible(grid, sel, grid.AllAttributes()), r2, c2
		}
		t.Log(vh.Ev{"e": "Data", "typ": allNum(feats), "rows": rows, "cls": cls})
		tree := trees.NewDecisionTreeClassifier(crit, int64(limit), labels)
		for round := 0; round < 1+rng.Intn(2); round++ {
			if round == 1 && rng.Intn(2) == 0 { // again, with other rows
				rows = numRows(rng, 1+rng.Intn(14), feats)
				grid, cls = mk(rows, rng.Intn(2) == 0)
				t.Log(vh.Ev{"e": "Data", "typ": allNum(feats), "rows": rows, "cls": cls})
			}
			must(tree.Fit(grid))
			nodes := cartNodes(st, tree.RootNode, "LeftLabel", "RightLabel", func(v reflect.Value) int { return index(v.Int()) })
			t.Log(vh.Ev{"e": "Fit", "crit": map[bool]string{true: "gini", false: "entropy"}[crit[0] == 'g' || crit[0] == 'G'], "limit": limit, "tree": nodes})
		}
		q := numRows(rng, 1+rng.Intn(6), feats)
		test, want := mk(q, false)
		for i := 0; i < 2; i++ {
			if i == 1 {
				q, test, want = rows, grid, cls
			}
			got := make([]int, 0)
			test = turned(rng, test)
			for _, l := range tree.Predict(test) {
				got = append(got, index(l))
			}
			t.Log(vh.Ev{"e": "Predict", "rows": q, "got": st.once(got)})
			acc, err := tree.Evaluate(test)
			must(err)
			right := int(math.Floor(acc*float64(len(q)) + 0.5)) // of the rows, or of all their copies
			if math.Abs(acc*float64(len(q))-float64(right)) > 1e-9 {
				right = vh.BadInt
			}
			t.Log(vh.Ev{"e": "Evaluate", "rows": q, "cls": want, "right": right})
		}
	}
	regress := func(t *vh.T) {
		rng := t.Rng
		n, feats := 1+rng.Intn(14), 1+rng.Intn(3)
		if rng.Intn(6) == 0 {
			feats = 1 + rng.Intn(6)
		}
		crit := []string{"mse", "mae", "MSE", "MAE"}[rng.Intn(4)]
		limit := rng.Intn(6) - 1
		noise, pos := rng.Intn(3) == 0, rng.Intn(feats+1)
		rows := numRows(rng, n, feats)
		y, target := make([]int, n), make([]float64, n)
		spread := 1 + rng.Intn(20)
		for r := range y {
			y[r] = rng.Intn(2*spread+1) - spread
			if rng.Intn(2) == 0 {
				y[r] = rows[r][0] * 3
			}
			target[r] = float64(y[r])
		}
		st := anyStore(rng, feats)
		if rng.Intn(25) == 0 { // many distinct values, and a step at one of them
			n, st, limit = 41+rng.Intn(6), plain(feats), 1+rng.Intn(2)
			rows, y, target = numRows(rng, n, feats), make([]int, n), make([]float64, n)
			at, low, high := rng.Intn(n), rng.Intn(7)-3, rng.Intn(7)-3
			for r, v := range rng.Perm(n) {
				rows[r][0], y[r] = v, low
				if v >= at {
					y[r] = high
				}
				target[r] = float64(y[r])
			}
		}
		if rng.Intn(3) == 0 {
			st.texp = []int{-100, -12, 12, 100}[rng.Intn(4)]
		} else if rng.Intn(4) == 0 {
			st.toff = []int{-100, 1000}[rng.Intn(2)]
		}
		value := func(f float64) int { return scaled(math.Ldexp(f, -st.texp) - float64(st.toff)) }
		grid := numGrid(st, rows, feats, target, noise, pos)
		t.Log(vh.Ev{"e": "Data", "typ": allNum(feats), "rows": rows, "cls": y})
		tree := trees.NewDecisionTreeRegressor(crit, int64(limit))
		if rng.Intn(3) == 0 { // fitted before, to other rows
			other := numRows(rng, 1+rng.Intn(8), feats)
			must(tree.Fit(numGrid(st, other, feats, make([]float64, len(other)), noise, pos)))
		}
		must(tree.Fit(grid))
		nodes := cartNodes(st, tree.RootNode, "LeftPred", "RightPred", func(v reflect.Value) int { return value(v.Float()) })
		t.Log(vh.Ev{"e": "Fit", "crit": map[bool]string{true: "mse", false: "mae"}[crit == "mse" || crit == "MSE"], "limit": limit, "tree": nodes})
		q := numRows(rng, 1+rng.Intn(6), feats)
		for i := 0; i < 2; i++ {
			if i == 1 {
				q = rows
			}
			got := make([]int, 0)
			for _, p := range tree.Predict(turned(rng, numGrid(st, q, feats, make([]float64, len(q)), noise, pos))) {
				got = append(got, value(p))
			}
			t.Log(vh.Ev{"e": "Predict", "rows": q, "got": st.once(got)})
		}
	}
	for _, x := range []struct {
		id string
		fn func(t *vh.T)
	}{{"C22", classify}, {"C23", regress}} {
		fn := x.fn
		vh.Register(x.id, func(c *vh.Ctx) {
			for i := 0; i < c.N(800, 15000); i++ {
				c.Case("cart", fn)
			}
			for i := 0; i < 6; i++ {
				k := i % 3
				c.Canary("tree", fn, func(evs []vh.Ev) []vh.Ev {
					root := evs[1]["tree"].([]interface{})[0].(map[string]interface{})
					switch k {
					case 0:
						root["ll"] = -1.0
					case 1:
						root["rl"] = -1.0
					default:
						for _, e := range evs {
							if e["e"] == "Predict" {
								e["got"].([]interface{})[0] = -1.0
							}
						}
					}
					return evs
				})
			}
		})
	}

	vh.Register("C24", func(c *vh.Ctx) {
		length := func(score float64, n int) float64 {
			c := 2*(math.Log(float64(n-1))+0.5772156649) - 2*float64(n-1)/float64(n)
			return -math.Log2(score) * c
		}
		micro := func(f float64) int {
			if math.IsNaN(f) || math.Abs(f) > 1000 {
				return vh.BadInt
			}
			return int(math.Floor(f*1e6 + 0.5))
		}
		split := func(pts [][]int) ([][]int, []float64) { // last coordinate is the class column
			rows, cls := make([][]int, len(pts)), make([]float64, len(pts))
			for i, p := range pts {
				rows[i], cls[i] = p[:len(p)-1], float64(p[len(p)-1])
			}
			return rows, cls
		}
		grid := func(st store, pts [][]int, pos int) base.FixedDataGrid {
			r, cl := split(pts)
			return numGrid(st, r, len(pts[0])-1, cl, false, pos)
		}
		// Numbers of other magnitudes, in every column or in some.
		stored := func(rng *rand.Rand, dim int) store {
			st := plain(dim - 1)
			if rng.Intn(3) > 0 {
				return st
			}
			exps := []int{0, -300, -30, 30, 300}
			for k := range st.exp {
				st.exp[k] = exps[rng.Intn(5)]
				if rng.Intn(3) == 0 {
					st.off[k] = 1000
				}
			}
			st.texp = exps[rng.Intn(5)]
			return st
		}
		one := func(t *vh.T) {
			rng := t.Rng
			dim := 1 + rng.Intn(2)
			if rng.Intn(3) == 0 {
				dim = 3
			}
			pos := rng.Intn(dim)
			data := numRows(rng, 1+rng.Intn(6), dim)
			n, limit := 2+rng.Intn(10), rng.Intn(6)
			st := stored(rng, dim)
			f := trees.NewIsolationForest(1, limit, n)
			if rng.Intn(4) == 0 { // fitted before, to other rows
				f.Fit(grid(st, numRows(rng, 1+rng.Intn(6), dim), pos))
			}
			f.Fit(grid(st, data, pos))
			points := append(append([][]int{}, data...), numRows(rng, rng.Intn(3), dim)...)
			paths := make([]int, 0)
			for _, s := range f.Predict(turned(rng, grid(st, points, pos))) {
				paths = append(paths, micro(length(s, n)))
			}
			t.Log(vh.Ev{"e": "Tree", "points": points, "data": len(data), "n": n, "limit": limit, "paths": paths})
		}
		stumps := func(t *vh.T) {
			rng := t.Rng
			dim := 1 + rng.Intn(3)
			a, b := numRows(rng, 1, dim)[0], numRows(rng, 1, dim)[0]
			b[rng.Intn(dim)] += 9
			n, nt := 2+rng.Intn(6), 1+rng.Intn(4)
			if rng.Intn(8) == 0 { // many trees of few rows
				n, nt = 2+rng.Intn(2), 5+rng.Intn(26)
			}
			f := trees.NewIsolationForest(nt, 1+rng.Intn(3), n)
			st := stored(rng, dim)
			f.Fit(grid(st, [][]int{a, b}, 0))
			p := f.Predict(turned(rng, grid(st, [][]int{a, b}, 0)))
			t.Log(vh.Ev{"e": "Stumps", "trees": nt, "n": n, "sum1": micro(length(p[0], n) * float64(nt)), "sum2": micro(length(p[1], n) * float64(nt))})
		}
		large := func(t *vh.T) {
			rng := t.Rng
			dim, n, limit := 1+rng.Intn(2), 17+rng.Intn(284), rng.Intn(9)
			data := make([][]int, 2+rng.Intn(60))
			for i := range data {
				data[i] = make([]int, dim)
				for k := range data[i] {
					data[i][k] = rng.Intn(100)
				}
			}
			sort.Slice(data, func(i, j int) bool {
				if data[i][0] == data[j][0] {
					return data[i][dim-1] < data[j][dim-1]
				}
				return data[i][0] < data[j][0]
			})
			f := trees.NewIsolationForest(1, limit, n)
			st := stored(rng, dim)
			f.Fit(grid(st, data, 0))
			paths := make([]int, 0)
			for _, s := range f.Predict(turned(rng, grid(st, data, 0))) {
				paths = append(paths, micro(length(s, n)))
			}
			t.Log(vh.Ev{"e": "Large", "points": data, "n": n, "limit": limit, "paths": paths})
		}
		// Rows of two kinds, the second rare
		halves := func(t *vh.T) {
			rng := t.Rng
			n, rows := 2+rng.Intn(299), 20+rng.Intn(200)
			rare := 1 + rng.Intn(rows/5)
			if rng.Intn(2) == 0 {
				n, rare = 300, rows/10
			}
			pts := make([][]int, rows)
			for i := range pts {
				pts[i] = []int{3, 0}
			}
			for _, i := range rng.Perm(rows)[:rare] {
				pts[i] = []int{3, 7}
			}
			f := trees.NewIsolationForest(1, 1+rng.Intn(5), n)
			f.Fit(grid(plain(1), pts, rng.Intn(2)))
			p := f.Predict(turned(rng, grid(plain(1), [][]int{{3, 0}, {3, 7}}, 0)))
			both := float64(n)*math.Log(1-float64(rare)/float64(rows)) < -20
			t.Log(vh.Ev{"e": "Halves", "n": n, "both": both, "p1": micro(length(p[0], n)), "p2": micro(length(p[1], n))})
		}
		drawn := func(t *vh.T) {
			pts := [][]int{{0}, {1}, {2}}
			if t.Rng.Intn(2) == 0 {
				pts = [][]int{{2}, {1}, {0}}
			}
			seen := []bool{false, false, false}
			for i := 0; i < 60; i++ {
				f := trees.NewIsolationForest(1, 4, 6)
				f.Fit(grid(plain(0), pts, 0))
				p := f.Predict(grid(plain(0), pts, 0))
				seen[0] = seen[0] || p[0] != p[1]
				seen[2] = seen[2] || p[2] != p[1]
				seen[1] = seen[1] || p[0] != p[1]
			}
			t.Log(vh.Ev{"e": "Drawn", "seen": seen})
		}
		for i := 0; i < c.N(500, 8000); i++ {
			c.Case("tree", one)
		}
		for i := 0; i < c.N(200, 2000); i++ {
			c.Case("stumps", stumps)
		}
		for i := 0; i < c.N(10, 100); i++ {
			c.Case("drawn", drawn)
		}
		for i := 0; i < c.N(60, 1000); i++ {
			c.Case("large", large)
		}
		for i := 0; i < c.N(120, 2000); i++ {
			c.Case("halves", halves)
		}
		for i := 0; i < 4; i++ {
			c.Canary("large", large, func(evs []vh.Ev) []vh.Ev {
				p := evs[0]["paths"].([]interface{})
				p[0] = p[0].(float64) + 30000000
				return evs
			})
			c.Canary("halves", halves, func(evs []vh.Ev) []vh.Ev {
				evs[0]["p1"] = evs[0]["p1"].(float64) + 30000000
				return evs
			})
		}
		for i := 0; i < 4; i++ {
			k := i % 2
			c.Canary("path", one, func(evs []vh.Ev) []vh.Ev {
				p := evs[0]["paths"].([]interface{})
				if k == 0 {
					p[0] = p[0].(float64) + 7000000
				} else {
					p[0] = p[0].(float64) + 1000
				}
				return evs
			})
		}
	})
}
