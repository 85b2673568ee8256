package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"time"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/metrics/pairwise"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
	"gonum.org/v1/gonum/mat"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// store is how the whole numbers of feature k are stored: as (off + x) * 2^exp.
type store struct{ off, exp []int }

func plain(feats int) store { return store{make([]int, feats), make([]int, feats)} }

// anyStore: numbers of other magnitudes, or far from zero.
func anyStore(rng *rand.Rand, feats int) store {
	st := plain(feats)
	if rng.Intn(3) > 0 {
		return st
	}
	e := []int{0, -300, -20, 20, 300}[rng.Intn(5)]
	for k := range st.off {
		st.exp[k] = e
		st.off[k] = []int{0, 0, 1000, -100000}[rng.Intn(4)]
	}
	return st
}

func (st store) put(k, x int) float64 { return math.Ldexp(float64(st.off[k]+x), st.exp[k]) }

// points is a grid of whole numbers, with columns which are not features (a class, a label) now and
// then, seen through a view sometimes. It returns the feature attributes too.
func points(rng *rand.Rand, st store, rows [][]int, feats int, extra bool) (base.FixedDataGrid, []base.Attribute) {
	g := base.NewDenseInstances()
	fs := make([]base.Attribute, feats)
	var cls base.Attribute
	at := rng.Intn(feats + 1)
	for i := 0; i <= feats; i++ {
		if extra && i == at {
			c := base.NewCategoricalAttribute()
			c.SetName("class")
			c.GetSysValFromString("x")
			cls = c
			if rng.Intn(2) == 0 {
				cls = base.NewFloatAttribute("class")
			}
			g.AddAttribute(cls)
			must(g.AddClassAttribute(cls))
		}
		if i < feats {
			fs[i] = base.NewFloatAttribute(fmt.Sprintf("f%d", i))
			g.AddAttribute(fs[i])
		}
	}
	order := seq(len(rows))
	if extra && rng.Intn(2) == 0 {
		order = rng.Perm(len(rows))
	}
	must(g.Extend(len(rows)))
	for i, a := range fs {
		sp, err := g.GetAttribute(a)
		must(err)
		for r := range rows {
			g.Set(sp, order[r], base.PackFloatToBytes(st.put(i, rows[r][i])))
		}
	}
	if f, ok := cls.(*base.FloatAttribute); ok {
		sp, err := g.GetAttribute(f)
		must(err)
		for r := range rows {
			g.Set(sp, r, base.PackFloatToBytes(float64(rng.Intn(1000))))
		}
	}
	sorted := true
	for i := range order {
		sorted = sorted && order[i] == i
	}
	if sorted {
		return g, fs
	}
	as := g.AllAttributes()
	if rng.Intn(2) == 0 {
		rng.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	}
	return base.NewInstancesViewFromVisible(g, order, as), fs
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func scatter(rng *rand.Rand, n, feats, span int) [][]int {
	rows := make([][]int, n)
	for i := range rows {
		rows[i] = make([]int, feats)
		for j := range rows[i] {
			rows[i][j] = rng.Intn(span) - span/2
		}
		if i > 0 && rng.Intn(3) > 0 { // stay near an earlier point
			from := rows[rng.Intn(i)]
			for j := range rows[i] {
				rows[i][j] = from[j] + rng.Intn(5) - 2
			}
		}
	}
	rng.Shuffle(n, func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	return rows
}

func lists(m clustering.ClusterMap) []vh.Ev {
	out := make([]vh.Ev, 0)
	for k, v := range m {
		out = append(out, vh.Ev{"id": k, "rows": append([]int{}, v...)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i]["id"].(int) < out[j]["id"].(int) })
	return out
}

func asMap(m clustering.ClusterMap) []vh.Ev {
	out := make([]vh.Ev, 0)
	for k, v := range m {
		out = append(out, vh.Ev{"id": k, "pts": append([]int{}, v...)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i]["id"].(int) < out[j]["id"].(int) })
	return out
}

func dbscan(t *vh.T) { dbscanOf(t, 1+t.Rng.Intn(24), 1+t.Rng.Intn(5), t.Rng.Intn(3) == 0) }

func dbscanOf(t *vh.T, n, min int, blocks bool) {
	rng := t.Rng
	feats := 1 + rng.Intn(3)
	rows := scatter(rng, n, feats, []int{10, 20, 40}[rng.Intn(3)])
	if blocks { // rows that lie together come together, but for some at the end
		late := rows[:rng.Intn(1+len(rows)/15)]
		rows = rows[len(late):]
		sort.Slice(rows, func(i, j int) bool {
			for k := range rows[i] {
				if rows[i][k] != rows[j][k] {
					return rows[i][k] < rows[j][k]
				}
			}
			return false
		})
		rows = append(append([][]int{}, rows...), late...)
	}
	dbscanRows(t, rows, min)
}

// heaps: points on top of each other, as many as are needed, or one too few.
func heaps(t *vh.T) {
	rng := t.Rng
	min := 2 + rng.Intn(24)
	var rows [][]int
	for k := 0; k < 1+rng.Intn(4); k++ {
		for i := min - rng.Intn(2); i > 0; i-- {
			rows = append(rows, []int{40 * k})
		}
	}
	if rng.Intn(3) == 0 {
		rng.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	}
	dbscanRows(t, rows, min)
}

func dbscanRows(t *vh.T, rows [][]int, min int) {
	rng := t.Rng
	feats := len(rows[0])
	st := anyStore(rng, feats)
	g, fs := points(rng, st, rows, feats, rng.Intn(2) == 0)
	used := fs
	seen := rows
	if feats > 1 && rng.Intn(3) == 0 { // some of the features, in another order
		p := rng.Perm(feats)[:1+rng.Intn(feats)]
		used = nil
		for _, i := range p {
			used = append(used, fs[i])
		}
		seen = make([][]int, len(rows))
		for r := range rows {
			for _, i := range p {
				seen[r] = append(seen[r], rows[r][i])
			}
		}
	}
	name := []string{"euclidean", "manhattan", "chebyshev"}[rng.Intn(3)]
	var metric pairwise.PairwiseDistanceFunc
	switch name {
	case "euclidean":
		metric = pairwise.NewEuclidean()
	case "manhattan":
		metric = pairwise.NewManhattan()
	default:
		metric = pairwise.NewChebyshev()
	}
	eps2 := 1 + rng.Intn(9)
	eps := math.Ldexp(float64(eps2)/2, st.exp[0])
	m, err := clustering.DBSCAN(g, clustering.DBSCANParameters{
		ClusterParameters: clustering.ClusterParameters{Attributes: used, Metric: metric}, Eps: eps, MinCount: min})
	must(err)
	cs := make([][]int, 0)
	for _, x := range lists(m) {
		cs = append(cs, x["rows"].([]int))
	}
	t.Log(vh.Ev{"e": "Cluster", "pts": seen, "metric": name, "eps2": eps2, "min": min, "clusters": cs})
}

func randomMap(rng *rand.Rand) clustering.ClusterMap { return mapOf(rng, rng.Intn(5), rng.Intn(10)) }

func mapOf(rng *rand.Rand, k, points int) clustering.ClusterMap {
	m := clustering.ClusterMap{}
	for i := 0; i < k; i++ {
		m[rng.Intn(4+k)-2] = []int{}
	}
	var ids []int
	for id := range m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	if len(ids) == 0 {
		return m
	}
	for p := 0; p < points; p++ {
		id := ids[rng.Intn(len(ids))]
		m[id] = append(m[id], p)
	}
	return m
}

// variant is a cluster map which resembles m.
func variant(rng *rand.Rand, m clustering.ClusterMap) clustering.ClusterMap {
	out := clustering.ClusterMap{}
	ids := rng.Perm(20 + len(m))
	var old []int
	for id := range m {
		old = append(old, id)
	}
	sort.Ints(old)
	var names []int
	for i, id := range old {
		pts := append([]int{}, m[id]...)
		rng.Shuffle(len(pts), func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
		out[ids[i]-5] = pts
		names = append(names, ids[i]-5)
	}
	if len(names) == 0 {
		return out
	}
	a, b := names[rng.Intn(len(names))], names[rng.Intn(len(names))]
	switch rng.Intn(8) {
	case 0: // move a point
		if n := len(out[a]); n > 0 {
			out[b] = append(out[b], out[a][n-1])
			out[a] = out[a][:n-1]
			if a == b {
				break
			}
		}
	case 1: // one point more
		out[a] = append(out[a], 1000)
	case 2: // one point less
		if n := len(out[a]); n > 0 {
			out[a] = out[a][:n-1]
		}
	case 3: // a repeated point
		if len(out[a]) > 0 {
			out[b] = append(out[b], out[a][0])
		}
	case 4: // split
		if n := len(out[a]); n > 1 {
			out[500] = append([]int{}, out[a][:n/2]...)
			out[a] = out[a][n/2:]
		}
	case 5: // swap two points
		if len(out[a]) > 0 && len(out[b]) > 0 {
			out[a][0], out[b][0] = out[b][0], out[a][0]
		}
	case 6: // merge
		if a != b {
			out[a] = append(out[a], out[b]...)
			out[b] = []int{}
			if rng.Intn(2) == 0 {
				delete(out, b)
			}
		}
	}
	return out
}

func init() {
	vh.Register("C31", func(c *vh.Ctx) {
		for i := 0; i < c.N(1500, 30000); i++ {
			c.Case("dbscan", dbscan)
		}
		for i := 0; i < c.N(10, 150); i++ {
			c.Case("many", func(t *vh.T) {
				n := 257 + t.Rng.Intn(60)
				min := 1 + t.Rng.Intn(8)
				if t.Rng.Intn(2) == 0 {
					min = 1 + t.Rng.Intn(n)
				}
				dbscanOf(t, n, min, t.Rng.Intn(3) == 0)
			})
		}
		for i := 0; i < c.N(60, 1200); i++ {
			c.Case("heaps", heaps)
		}
		for i := 0; i < c.N(6, 60); i++ {
			c.Case("blocks", func(t *vh.T) { dbscanOf(t, 300+t.Rng.Intn(120), 2+t.Rng.Intn(20), true) })
		}
		for i := 0; i < 8; i++ {
			i := i
			c.Canary("moved", func(t *vh.T) {
				// a line of points, all in one cluster
				rows := [][]int{{0}, {1}, {2}, {3}, {4}, {5}}
				g, fs := points(t.Rng, plain(1), rows, 1, false)
				m, err := clustering.DBSCAN(g, clustering.DBSCANParameters{
					ClusterParameters: clustering.ClusterParameters{Attributes: fs, Metric: pairwise.NewEuclidean()}, Eps: 1, MinCount: 2})
				must(err)
				t.Log(vh.Ev{"e": "Cluster", "pts": rows, "metric": "euclidean", "eps2": 2, "min": 2, "clusters": [][]int{m[1]}})
			}, func(evs []vh.Ev) []vh.Ev {
				switch i % 4 {
				case 0:
					evs[0]["clusters"] = [][]int{{0, 1, 2}, {3, 4, 5}}
				case 1:
					evs[0]["clusters"] = [][]int{{0, 1, 2, 3, 4}}
				case 2:
					evs[0]["clusters"] = [][]int{}
				case 3:
					evs[0]["clusters"] = [][]int{{0, 1, 2, 3, 4, 5, 5}}
				}
				return evs
			})
		}
	})

	vh.Register("C33", func(c *vh.Ctx) {
		comparing := func(t *vh.T, a clustering.ClusterMap) {
			rng := t.Rng
			b := variant(rng, a)
			if rng.Intn(4) == 0 {
				b = randomMap(rng)
			}
			if rng.Intn(6) == 0 {
				a = variant(rng, a)
			}
			was := []interface{}{asMap(a), asMap(b)}
			for _, x := range []clustering.ClusterMap{a, b} {
				inv, err := x.Invert()
				out := "ok"
				if err != nil {
					out = "err"
				}
				is := make([]vh.Ev, 0)
				for p, id := range inv {
					is = append(is, vh.Ev{"p": p, "id": id})
				}
				sort.Slice(is, func(i, j int) bool { return is[i]["p"].(int) < is[j]["p"].(int) })
				t.Log(vh.Ev{"e": "Invert", "map": asMap(x), "out": out, "inv": is})
			}
			for _, x := range [][2]clustering.ClusterMap{{a, b}, {b, a}, {a, a}} {
				for k := 0; k < 3; k++ { // a map's order is another every time
					same, err := x[0].Equals(x[1])
					t.Log(vh.Ev{"e": "Equal", "a": asMap(x[0]), "b": asMap(x[1]), "same": same && err == nil})
				}
			}
			t.Log(vh.Ev{"e": "After", "was": was, "now": []interface{}{asMap(a), asMap(b)}})
		}
		compare := func(t *vh.T) { comparing(t, randomMap(t.Rng)) }
		for i := 0; i < c.N(2000, 40000); i++ {
			c.Case("maps", compare)
		}
		for i := 0; i < c.N(12, 200); i++ {
			c.Case("many", func(t *vh.T) { comparing(t, mapOf(t.Rng, 1+t.Rng.Intn(30), 100+t.Rng.Intn(200))) })
		}
		for i := 0; i < 6; i++ {
			c.Canary("turned", compare, func(evs []vh.Ev) []vh.Ev {
				evs[2]["same"] = !evs[2]["same"].(bool)
				return evs
			})
			c.Canary("inverted", compare, func(evs []vh.Ev) []vh.Ev {
				evs[0]["inv"] = append(evs[0]["inv"].([]interface{}), map[string]interface{}{"p": 77, "id": 1})
				if evs[0]["out"] == "err" {
					evs[0]["out"] = "ok"
				}
				return evs
			})
		}
	})

	vh.Register("C32", func(c *vh.Ctx) {
		for i := 0; i < c.N(500, 8000); i++ {
			c.Case("whole", wholeMixture)
			c.Case("fitted", fittedMixture)
			c.Case("only", onlyMixture)
		}
		for i := 0; i < 20; i++ {
			c.Case("refused", func(t *vh.T) {
				k := 2 + t.Rng.Intn(4)
				em, err := clustering.NewExpectationMaximization(k)
				must(err)
				g, _ := points(t.Rng, plain(2), scatter(t.Rng, 1+t.Rng.Intn(k-1), 2, 9), 2, false)
				t.Log(vh.Ev{"e": "Refused", "out": vh.TryErr(func() error { _, err := em.Predict(g); return err })})
				t.Log(vh.Ev{"e": "Refused", "out": vh.TryErr(func() error { return em.Fit(g) })})
				t.Log(vh.Ev{"e": "Refused", "out": vh.TryErr(func() error { _, err := em.Predict(g); return err })})
				t.Log(vh.Ev{"e": "Refused", "out": vh.TryErr(func() error { _, err := clustering.NewExpectationMaximization(-t.Rng.Intn(2)); return err })})
			})
			c.Canary("moved", wholeMixture, func(evs []vh.Ev) []vh.Ev {
				for _, e := range evs {
					if e["e"] == "Predict" {
						e["clusters"] = e["clusters"].([]interface{})[1:]
					}
				}
				return evs
			})
		}
	})
}

// component is a Gaussian with a whole-numbered mean and a covariance whose determinant is a power of two.
type component struct {
	mean       []int
	full       bool
	a, b, e, h int
	logv       []int
}

func (k component) ev() vh.Ev {
	out := vh.Ev{"mean": k.mean, "kind": "diag", "h": k.h}
	if k.full {
		out["kind"], out["a"], out["b"], out["e"] = "full", k.a, k.b, k.e
	} else {
		out["logv"] = k.logv
	}
	return out
}

var covs = [][4]int{{1, 0, 1, 0}, {2, 1, 1, 0}, {2, -1, 1, 0}, {1, 1, 2, 0}, {3, 1, 1, 1}, {1, -1, 3, 1}, {5, 1, 1, 2}, {5, 3, 2, 0}, {9, 1, 1, 3}, {2, 0, 4, 3}, {4, 2, 2, 2}}

func randomComponent(rng *rand.Rand, feats int) component {
	k := component{}
	for j := 0; j < feats; j++ {
		k.mean = append(k.mean, rng.Intn(9)-4)
	}
	if feats == 2 && rng.Intn(3) > 0 {
		v := covs[rng.Intn(len(covs))]
		k.full, k.a, k.b, k.e, k.h = true, v[0], v[1], v[2], v[3]
		return k
	}
	for j := 0; j < feats; j++ {
		v := rng.Intn(4)
		k.logv = append(k.logv, v)
		k.h += v
	}
	return k
}

// fitted is a mixture fitted to any data of the given shape, or nil: with bad luck a component's
// covariance is singular, or fitting goes on.
func fitted(em *clustering.ExpectationMaximization, g base.FixedDataGrid) string {
	done := make(chan string, 1)
	go func() { done <- vh.TryErr(func() error { return em.Fit(g) }) }()
	select {
	case out := <-done:
		return out
	case <-time.After(3 * time.Second):
		return "endless"
	}
}

func predict(t *vh.T, em *clustering.ExpectationMaximization, st store, all [][]int, feats int, pick []int) []int {
	xs := make([][]int, len(pick))
	for i, r := range pick {
		xs[i] = all[r]
	}
	g, _ := points(t.Rng, st, xs, feats, t.Rng.Intn(2) == 0)
	if t.Rng.Intn(3) == 0 { // with its columns in another order
		as := append([]base.Attribute{}, g.AllAttributes()...)
		t.Rng.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
		g = base.NewInstancesViewFromVisible(g, seq(len(xs)), as)
	}
	m, err := em.Predict(g)
	must(err)
	t.Log(vh.Ev{"e": "Predict", "rows": plusOne(pick), "xs": xs, "clusters": lists(m)})
	out := make([]int, len(pick))
	for id, rows := range m {
		for _, r := range rows {
			if r >= 0 && r < len(out) {
				out[r] = id
			}
		}
	}
	return out
}

func plusOne(a []int) []int {
	out := make([]int, len(a))
	for i := range a {
		out[i] = a[i] + 1
	}
	return out
}

// batches asks for the rows in several batches.
func batches(t *vh.T, em *clustering.ExpectationMaximization, st store, rows [][]int, feats int) {
	whole := predict(t, em, st, rows, feats, seq(len(rows)))
	for k := 0; k < 3; k++ {
		var pick []int
		for i := 0; i < 1+t.Rng.Intn(4); i++ {
			pick = append(pick, t.Rng.Intn(len(rows)))
		}
		part := predict(t, em, st, rows, feats, pick)
		t.Log(vh.Ev{"e": "Same", "whole": whole, "part": part, "rows": plusOne(pick)})
	}
}

func wholeMixture(t *vh.T) {
	rng := t.Rng
	feats, n := 1+rng.Intn(3), 1+rng.Intn(4)
	if rng.Intn(8) == 0 {
		n = 5 + rng.Intn(16)
	}
	st := anyStore(rng, feats) // features of very different magnitude are too much for the linear algebra
	em, err := clustering.NewExpectationMaximization(n)
	must(err)
	// learn the order of the columns from values of different sizes
	out := ""
	for i := 0; i < 120 && out != "ok"; i++ {
		if i > 0 && i%12 == 0 && n > 1 { // fewer components are easier to fit
			n = (n + 1) / 2
			em, err = clustering.NewExpectationMaximization(n)
			must(err)
		}
		rows := scatter(rng, 12+4*n, feats, 30)
		for r := range rows {
			for j := range rows[r] {
				rows[r][j] = 1000*j + rng.Intn(200)
			}
		}
		g, _ := points(rng, plain(feats), rows, feats, rng.Intn(2) == 0)
		out = fitted(em, g)
	}
	if out != "ok" {
		panic("cannot fit anything: " + out)
	}
	col := make([]int, feats)
	for j := range col {
		col[j] = int(math.Floor((em.Params.Means.At(0, j)+300)/1000 + 1e-9))
	}
	ks := make([]component, n)
	es := make([]vh.Ev, n)
	em.Params = clustering.Params{Means: mat.NewDense(n, feats, nil)}
	for i := range ks {
		k := randomComponent(rng, feats)
		es[i] = k.ev()
		cov := mat.NewSymDense(feats, nil)
		for j, f := range col {
			em.Params.Means.Set(i, j, st.put(f, k.mean[f]))
			if !k.full {
				cov.SetSym(j, j, math.Ldexp(1, k.logv[f]+2*st.exp[f]))
			}
		}
		if k.full {
			d := []int{k.a, k.e}
			cov.SetSym(0, 0, math.Ldexp(float64(d[col[0]]), 2*st.exp[col[0]]))
			cov.SetSym(1, 1, math.Ldexp(float64(d[col[1]]), 2*st.exp[col[1]]))
			cov.SetSym(0, 1, math.Ldexp(float64(k.b), st.exp[0]+st.exp[1]))
		}
		em.Params.Covs = append(em.Params.Covs, cov)
	}
	t.Log(vh.Ev{"e": "Components", "comps": es})
	rows := make([][]int, 1+rng.Intn(12))
	if rng.Intn(40) == 0 {
		rows = make([][]int, 257+rng.Intn(50))
	}
	for r := range rows {
		for j := 0; j < feats; j++ {
			rows[r] = append(rows[r], rng.Intn(15)-7)
		}
	}
	batches(t, em, st, rows, feats)
}

// cost is twice the negated log-density without its constant, by elimination.
func cost(mean []float64, cov *mat.SymDense, x []float64) float64 {
	n := len(mean)
	a := make([][]float64, n)
	for i := range a {
		a[i] = make([]float64, n+1)
		for j := 0; j < n; j++ {
			a[i][j] = cov.At(i, j)
		}
		a[i][n] = x[i] - mean[i]
	}
	q, logdet := 0.0, 0.0
	for i := 0; i < n; i++ {
		q += a[i][n] * a[i][n] / a[i][i]
		if a[i][i] < 1e-6*cov.At(i, i) {
			return math.NaN() // too close to singular
		}
		logdet += math.Log(a[i][i])
		for r := i + 1; r < n; r++ {
			f := a[r][i] / a[i][i]
			for j := i; j <= n; j++ {
				a[r][j] -= f * a[i][j]
			}
		}
	}
	return q + logdet
}

// onlyMixture fits one component to a few rows.
func onlyMixture(t *vh.T) {
	rng := t.Rng
	feats := 1 + rng.Intn(3)
	st := plain(feats)
	exp := []int{0, 0, -3, 6}[rng.Intn(4)]
	for k := range st.exp {
		st.exp[k], st.off[k] = exp, 1000*k
	}
	rows := scatter(rng, 2+rng.Intn(20), feats, 8)
	if rng.Intn(10) == 0 {
		rows = scatter(rng, 257+rng.Intn(50), feats, 8)
	}
	em, err := clustering.NewExpectationMaximization(1)
	must(err)
	g, _ := points(rng, st, rows, feats, rng.Intn(2) == 0)
	if rng.Intn(3) == 0 { // fitted before, to other rows
		o, _ := points(rng, st, scatter(rng, 12, feats, 30), feats, false)
		fitted(em, o)
	}
	if out := fitted(em, g); out != "ok" {
		t.Note("unfit", vh.LastPanic)
		t.Log(vh.Ev{"e": "Components", "comps": []int{}})
		return
	}
	// the order of the columns shows in the means
	pos := make([]int, feats)
	for j := range pos {
		if k := int(math.Floor((math.Ldexp(em.Params.Means.At(0, j), -exp) + 500) / 1000)); k >= 0 && k < feats {
			pos[k] = j
		}
	}
	n := float64(len(rows))
	near := func(f float64) int {
		v := math.Floor(f + 0.5)
		if math.Abs(v-f) > 1e-6*(1+math.Abs(f)) {
			return vh.BadInt
		}
		return vh.Int(v)
	}
	mean, cov := make([]int, feats), make([][]int, feats)
	for i := range mean {
		mean[i] = near((math.Ldexp(em.Params.Means.At(0, pos[i]), -exp) - float64(1000*i)) * n)
		for j := range mean {
			cov[i] = append(cov[i], near(math.Ldexp(em.Params.Covs[0].At(pos[i], pos[j]), -2*exp)*n*(n-1)))
		}
	}
	t.Log(vh.Ev{"e": "Only", "xs": rows, "mean": mean, "cov": cov})
}

func fittedMixture(t *vh.T) {
	rng := t.Rng
	feats, n := 1+rng.Intn(3), 1+rng.Intn(4)
	em, err := clustering.NewExpectationMaximization(n)
	must(err)
	rows := scatter(rng, 4*n+4+rng.Intn(20), feats, 60)
	for r := range rows {
		for j := range rows[r] {
			rows[r][j] += 1000 * j
		}
	}
	st := plain(feats)
	g, _ := points(rng, st, rows, feats, rng.Intn(2) == 0)
	out := fitted(em, g)
	if out == "panic" || out == "endless" {
		// some component came down to points which span too little
		t.Note("unfit", vh.LastPanic)
		t.Log(vh.Ev{"e": "Components", "comps": []int{}})
		return
	}
	shown, f := em.Params.Means.Dims()
	if f != feats || len(em.Params.Covs) != n {
		shown = vh.BadInt
	}
	col := make([]int, feats)
	for j := range col {
		col[j] = int(math.Floor((em.Params.Means.At(0, j)+500)/1000 + 1e-9))
	}
	costs := make([][]int, len(rows))
	for r := range rows {
		x := make([]float64, feats)
		for j, k := range col {
			x[j] = float64(rows[r][k])
		}
		for k := 0; k < n; k++ {
			v := cost(em.Params.Means.RawRowView(k), em.Params.Covs[k], x)
			if math.IsNaN(v) {
				out = "singular"
			}
			costs[r] = append(costs[r], vh.Scaled(math.Min(v, 15000), 1e5))
		}
	}
	if out == "singular" {
		t.Log(vh.Ev{"e": "Components", "comps": []int{}})
		return
	}
	inside := true
	for j, k := range col {
		lo, hi := rows[0][k], rows[0][k]
		for _, x := range rows {
			if x[k] < lo {
				lo = x[k]
			}
			if x[k] > hi {
				hi = x[k]
			}
		}
		for i := 0; i < shown; i++ {
			m := em.Params.Means.At(i, j)
			inside = inside && m > float64(lo)-1e-6 && m < float64(hi)+1e-6
		}
	}
	t.Log(vh.Ev{"e": "Box", "inside": inside})
	t.Log(vh.Ev{"e": "Fitted", "out": out, "requested": n, "shown": shown, "costs": costs})
	batches(t, em, st, rows, feats)
}
