package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"unsafe"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/neural"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
	"gonum.org/v1/gonum/mat"
)

// network finds the simulator inside a layered network, whatever the field is called.
func network(m *neural.MultiLayerNet) *neural.Network {
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf((*neural.Network)(nil)) {
			return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface().(*neural.Network)
		}
	}
	panic("no network inside")
}

// nodes counts the nodes of a network by asking for biases until there are no more.
func nodes(n *neural.Network) int {
	k := 0
	for vh.Try(func() { n.GetBias(k + 1) }) == "ok" {
		k++
	}
	return k
}

// shape describes a data set: kinds of the features and classes (0 a number, 1 a binary value, n >= 2 a
// label out of n), and where the classes stand.
type shape struct {
	kinds, cls []int
	order      []int // positions: feature i, or class len(kinds)+i
	unit       float64
}

func (s shape) attrs() []base.Attribute {
	var out []base.Attribute
	for i, k := range append(append([]int{}, s.kinds...), s.cls...) {
		name := fmt.Sprintf("a%d", i)
		switch k {
		case 0:
			out = append(out, base.NewFloatAttribute(name))
		case 1:
			out = append(out, base.NewBinaryAttribute(name))
		default:
			a := base.NewCategoricalAttribute()
			a.SetName(name)
			for j := 0; j < k; j++ {
				a.GetSysValFromString(fmt.Sprintf("v%d", j))
			}
			out = append(out, a)
		}
	}
	return out
}

// grid holds rows (features, then classes).
func (s shape) grid(as []base.Attribute, rows [][]int) base.FixedDataGrid {
	g := base.NewDenseInstances()
	specs := make([]base.AttributeSpec, len(as))
	for _, i := range s.order {
		specs[i] = g.AddAttribute(as[i])
	}
	for i := range s.cls {
		must(g.AddClassAttribute(as[len(s.kinds)+i]))
	}
	must(g.Extend(len(rows)))
	for r, row := range rows {
		for i, v := range row {
			switch as[i].(type) {
			case *base.FloatAttribute:
				if s.unit != 0 && i < len(s.kinds) {
					g.Set(specs[i], r, base.PackFloatToBytes(float64(v)*s.unit))
				} else {
					g.Set(specs[i], r, base.PackFloatToBytes(float64(v)))
				}
			case *base.BinaryAttribute:
				g.Set(specs[i], r, []byte{byte(v)})
			default:
				g.Set(specs[i], r, base.PackU64ToBytes(uint64(v)))
			}
		}
	}
	return g
}

func (s shape) row(rng *rand.Rand) []int {
	var out []int
	for _, k := range append(append([]int{}, s.kinds...), s.cls...) {
		switch k {
		case 0:
			out = append(out, rng.Intn(5)-2)
		case 1:
			out = append(out, rng.Intn(2))
		default:
			out = append(out, rng.Intn(k))
		}
	}
	return out
}

func specKinds(ks []int) []int {
	out := make([]int, len(ks))
	for i, k := range ks {
		out[i] = k
		if k == 1 {
			out[i] = 2 // a binary value is like one of two labels
		}
	}
	return out
}

func randomShape(rng *rand.Rand, numeric bool) shape {
	s := shape{cls: []int{2 + rng.Intn(4)}}
	if numeric {
		s.cls = []int{0, 0, 0}[:1+rng.Intn(3)]
	}
	width := 0
	for len(s.kinds) == 0 || (rng.Intn(3) > 0 && width < 5) {
		k := []int{0, 0, 0, 1, 2, 3}[rng.Intn(6)]
		if k == 3 && width > 2 {
			k = 0
		}
		if k == 3 {
			width += 2
		}
		width++
		s.kinds = append(s.kinds, k)
	}
	s.order = rng.Perm(len(s.kinds) + len(s.cls))
	return s
}

func cells(g base.FixedDataGrid) string {
	out := ""
	_, n := g.Size()
	for r := 0; r < n; r++ {
		out += g.RowString(r)
		for _, sp := range base.ResolveAllAttributes(g) {
			out += fmt.Sprintf(" %x", g.Get(sp, r))
		}
		out += ";"
	}
	var names []string
	for _, a := range g.AllClassAttributes() {
		names = append(names, a.GetName())
	}
	sort.Strings(names)
	out += fmt.Sprint(names)
	return out
}

func fitOnce(net *neural.MultiLayerNet, seed int64, iterations int, g base.FixedDataGrid) {
	rand.Seed(seed)
	net.MaxIterations = iterations
	net.Fit(g)
}

func wires(n *neural.Network, size int) [][]int {
	out := make([][]int, 0)
	for s := 1; s <= size; s++ {
		for t := 1; t <= size; t++ {
			if n.GetWeight(s, t) != 0 {
				out = append(out, []int{s, t})
			}
		}
	}
	return out
}

func layered(t *vh.T) { layers(t, false) }

func layers(t *vh.T, large bool) {
	rng := t.Rng
	s := randomShape(rng, rng.Intn(3) == 0)
	hidden := make([]int, 0)
	for i := 0; i < rng.Intn(4); i++ {
		hidden = append(hidden, 1+rng.Intn(4))
	}
	train, asked := 2+rng.Intn(6), 8
	wide, hundreds := false, false
	if large {
		switch rng.Intn(9) {
		case 0: // hundreds of labels
			hundreds = true
			s = shape{kinds: []int{0}, cls: []int{257 + rng.Intn(5)}, order: []int{1, 0}}
			hidden, train, asked = []int{}, 2, 10
		case 1, 2:
			s.cls = []int{7 + rng.Intn(40)}
			s.order = rng.Perm(len(s.kinds) + 1)
		case 3, 4: // more features than there are orders to try: their weights are alike
			wide = true
			s.kinds, s.cls = nil, []int{rng.Intn(6)}
			if s.cls[0] == 1 {
				s.cls[0] = 0
			}
			for i := 0; i < 10+rng.Intn(60); i++ {
				s.kinds = append(s.kinds, rng.Intn(2))
			}
			s.order = rng.Perm(len(s.kinds) + 1)
		case 5:
			hidden = []int{20 + rng.Intn(20)}
		case 6:
			for i := 0; i < 5; i++ {
				hidden = append(hidden, 1+rng.Intn(5))
			}
		case 7:
			asked = 300
		default:
			train = 257 + rng.Intn(50)
		}
	}
	net := neural.NewMultiLayerNet(hidden)
	as := s.attrs()
	fit := func(seed int64, iterations int, rows [][]int) base.FixedDataGrid {
		g := s.grid(as, rows)
		was := cells(g)
		fitOnce(net, seed, iterations, g)
		n := network(net)
		size := nodes(n)
		t.Log(vh.Ev{"e": "Fit", "kinds": specKinds(s.kinds), "cls": specKinds(s.cls), "hidden": hidden, "size": size, "wires": wires(n, size)})
		t.Log(vh.Ev{"e": "Same", "was": was, "now": cells(g)})
		return g
	}
	if rng.Intn(2) == 0 { // an earlier life, with other data
		keep := s
		s = randomShape(rng, false)
		as = s.attrs()
		fit(rng.Int63(), rng.Intn(3), [][]int{s.row(rng), s.row(rng)})
		s = keep
		as = s.attrs()
	}
	many := [][]int{}
	for i := 0; i < train; i++ {
		many = append(many, s.row(rng))
	}
	fit(rng.Int63(), rng.Intn(6), many)
	n := network(net)
	size := nodes(n)
	ni := len(s.kinds)
	if wide {
		t.Log(vh.Ev{"e": "Wide"})
	} else {
		one := s.row(rng)
		for i, v := range rng.Perm(5) { // values which tell the features apart
			if i < len(s.kinds) && s.kinds[i] == 0 {
				one[i] = []int{1, -2, 3, 4, -5}[v]
			}
		}
		seed := rng.Int63()
		fit(seed, 0, [][]int{one})
		before := network(net)
		fit(seed, 1, [][]int{one})
		n = network(net)
		size = nodes(n)
		ni = 0
		for ni < size && n.GetWeight(ni+1, ni+1) != 0 {
			ni++
		}
		next := ni + 1
		move := func(i, j int) float64 { return n.GetWeight(i, j) - before.GetWeight(i, j) }
		first := size
		if len(hidden) > 0 {
			first = ni + hidden[0]
		}
		best := 0.0
		for j := ni + 1; j <= first; j++ {
			for i := 1; i <= ni; i++ {
				if d := move(i, j); d > best || -d > best {
					next = j
					best = d
					if d < 0 {
						best = -d
					}
				}
			}
		}
		if s.cls[0] > 0 {
			dw, db := make([]int, ni), make([]int, 0)
			for i := range dw {
				dw[i] = vh.Scaled(move(i+1, next), 1e7)
			}
			outs := 1
			if s.cls[0] > 2 {
				outs = s.cls[0]
			}
			for j := size - outs + 1; j <= size; j++ {
				db = append(db, vh.Scaled(n.GetBias(j)-before.GetBias(j), 1e7))
			}
			t.Log(vh.Ev{"e": "Step", "row": one[:len(s.kinds)], "k": one[len(s.kinds)], "dw": dw, "db": db})
		} else {
			dw := make([]int, ni)
			for i := range dw {
				dw[i] = vh.Scaled(move(i+1, next), 1e7)
			}
			t.Log(vh.Ev{"e": "Step", "row": one[:len(s.kinds)], "k": 0, "dw": dw, "db": []int{}})
		}
	}
	unit := 1.0
	if rng.Intn(2) == 0 {
		numeric := true
		for _, k := range s.kinds {
			numeric = numeric && k == 0
		}
		if numeric {
			unit = []float64{1.0 / (1 << 20), 1 << 20, 1.0 / (1 << 60)}[rng.Intn(3)]
		}
	}
	// whole-numbered weights
	layer := make([]int, size+1) // 0 for inputs
	at := ni
	for k, h := range hidden {
		for i := 0; i < h; i++ {
			at++
			layer[at] = k + 1
		}
	}
	for at < size {
		at++
		layer[at] = len(hidden) + 1
	}
	w, b := make([][]int, size), make([]int, size)
	for i := range w {
		w[i] = make([]int, size)
		for j := range w[i] {
			if i == j && i < ni {
				w[i][j] = 1
			}
			if layer[j+1] == layer[i+1]+1 {
				v := rng.Intn(5) - 2
				if hundreds && j < size-8 { // one of the last will be highest
					v = 0
				}
				if wide && i > 0 && i < ni {
					v = w[0][j]
				}
				w[i][j] = v
				if layer[j+1] <= len(hidden) {
					v *= 50
				}
				if i < ni {
					n.SetWeight(i+1, j+1, float64(v)/unit)
				} else {
					n.SetWeight(i+1, j+1, float64(v))
				}
			}
		}
		if i >= ni {
			v := rng.Intn(5) - 2
			if hundreds && i < size-8 {
				v = -2
			}
			b[i] = v
			if layer[i+1] <= len(hidden) {
				v *= 50
			}
			n.SetBias(i+1, float64(v))
		}
	}
	t.Log(vh.Ev{"e": "Set", "w": w, "b": b})
	s.unit = unit
	for k := 0; k < 3; k++ {
		rows := [][]int{}
		feats := [][]int{}
		for i := 0; i < 1+rng.Intn(8) || asked > 8 && i < asked; i++ {
			rows = append(rows, s.row(rng))
			feats = append(feats, rows[i][:len(s.kinds)])
		}
		q := as
		if k > 0 && rng.Intn(2) == 0 {
			q = s.attrs() // equal attributes, but not the same objects
		}
		ask := s.grid(q, rows)
		if k == 2 {
			ask = base.NewInstancesViewFromAttrs(ask, reorder(rng, ask))
		}
		was := cells(ask)
		p := net.Predict(ask)
		got := make([][]int, len(rows))
		_, np := p.Size()
		if np != len(rows) {
			got = make([][]int, np)
		}
		for i := range s.cls {
			a := base.GetAttributeByName(p, fmt.Sprintf("a%d", len(s.kinds)+i))
			sp, err := p.GetAttribute(a)
			must(err)
			for r := range got {
				v := p.Get(sp, r)
				if s.cls[i] == 0 {
					got[r] = append(got[r], vh.Scaled(base.UnpackBytesToFloat(v), 1e6))
				} else {
					got[r] = append(got[r], int(base.UnpackBytesToU64(v)))
				}
			}
		}
		t.Log(vh.Ev{"e": "Predict", "rows": feats, "got": got})
		t.Log(vh.Ev{"e": "Same", "was": was, "now": cells(ask)})
	}
}

// descent watches single training steps, on data in which the features are all alike.
func descent(t *vh.T) {
	rng := t.Rng
	s := shape{kinds: make([]int, 1+rng.Intn(4)), cls: []int{[]int{0, 2, 2, 3, 4, 6}[rng.Intn(6)]}}
	if rng.Intn(5) == 0 {
		s.kinds = []int{1}
	}
	if rng.Intn(12) == 0 {
		s.kinds = make([]int, 20+rng.Intn(20))
	}
	s.order = rng.Perm(len(s.kinds) + 1)
	hidden := make([]int, 0)
	for i := 0; i < rng.Intn(4); i++ {
		hidden = append(hidden, 1+rng.Intn(4))
	}
	net := neural.NewMultiLayerNet(hidden)
	net.Convergence = 0
	rate := 1 + rng.Intn(12)
	net.LearningRate = float64(rate) / 10
	as := s.attrs()
	seed := rng.Int63()
	rows := [][]int{}
	for i := 0; i < 5; i++ {
		row := s.row(rng)
		for j := range s.kinds {
			row[j] = row[0]
		}
		rows = append(rows, row)
	}
	fit := func(iterations int, rows [][]int) (*neural.Network, int) {
		fitOnce(net, seed, iterations, s.grid(as, rows))
		return network(net), nodes(network(net))
	}
	step := func(row []int, it0, it1 int, rows0, rows1 [][]int) {
		before, size := fit(it0, rows0)
		ni := len(s.kinds)
		k := row[ni]
		loss := func() float64 {
			x := mat.NewDense(size, 1, nil)
			for i := 0; i < ni; i++ {
				x.Set(i, 0, float64(row[i]))
			}
			before.Activate(x, len(hidden)+1)
			want := []float64{float64(k)}
			if s.cls[0] > 2 {
				want = make([]float64, s.cls[0])
				want[k] = 1
			}
			sum := 0.0
			for i, w := range want {
				d := w - x.At(size-len(want)+i, 0)
				sum += d * d / 2
			}
			return sum
		}
		const h = 5e-5
		slope := func(set func(float64), v float64) int {
			set(v + h)
			up := loss()
			set(v - h)
			down := loss()
			set(v)
			return vh.Scaled((down-up)/(2*h), 1e8)
		}
		type wire struct{ s, t int }
		var some []wire
		for _, w := range wires(before, size) {
			if w[0] != w[1] {
				some = append(some, wire{w[0], w[1]})
			}
		}
		for i := ni + 1; i <= size; i++ {
			some = append(some, wire{0, i})
		}
		rng.Shuffle(len(some), func(i, j int) { some[i], some[j] = some[j], some[i] })
		if len(some) > 30 {
			some = some[:30]
		}
		get := func(n *neural.Network, w wire) float64 {
			if w.s == 0 {
				return n.GetBias(w.t)
			}
			return n.GetWeight(w.s, w.t)
		}
		was, down := []float64{}, []int{}
		for _, w := range some {
			w := w
			v := get(before, w)
			was = append(was, v)
			down = append(down, slope(func(v float64) {
				if w.s == 0 {
					before.SetBias(w.t, v)
				} else {
					before.SetWeight(w.s, w.t, v)
				}
			}, v))
		}
		after, _ := fit(it1, rows1)
		moved := []int{}
		for i, w := range some {
			moved = append(moved, vh.Scaled(get(after, w)-was[i], 1e8))
		}
		t.Log(vh.Ev{"e": "Descent", "rate": rate, "moved": moved, "down": down})
	}
	for r := 0; r < len(rows); r++ { // one more row
		if r == 0 {
			step(rows[0], 0, 1, rows[:1], rows[:1])
		} else {
			step(rows[r], 1, 1, rows[:r], rows[:r+1])
		}
	}
	for i := 0; i < 3; i++ { // one more pass
		step(rows[0], i, i+1, rows[:1], rows[:1])
	}
	// the first pass which is good enough is the last
	show := func(n *neural.Network, size int) string {
		out := ""
		for i := 1; i <= size; i++ {
			for j := 1; j <= size; j++ {
				out += fmt.Sprintf("%.9f ", n.GetWeight(i, j))
			}
			out += fmt.Sprintf("%.9f ", n.GetBias(i))
		}
		return out
	}
	once := show(fit(1, rows))
	net.Convergence = 1e9
	t.Log(vh.Ev{"e": "Same", "was": once, "now": show(fit(2+rng.Intn(5), rows))})
}

func reorder(rng *rand.Rand, g base.FixedDataGrid) []base.Attribute {
	as := g.AllAttributes()
	rng.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	return as
}

func init() {
	vh.Register("C36", func(c *vh.Ctx) {
		for i := 0; i < c.N(800, 12000); i++ {
			c.Case("layers", layered)
		}
		for i := 0; i < c.N(60, 900); i++ {
			c.Case("large", func(t *vh.T) { layers(t, true) })
		}
		for i := 0; i < c.N(200, 3000); i++ {
			c.Case("descent", descent)
		}
		for i := 0; i < 3; i++ {
			c.Canary("slope", descent, func(evs []vh.Ev) []vh.Ev {
				for _, e := range evs {
					if m, ok := e["moved"].([]interface{}); ok {
						for i := range m {
							m[i] = m[i].(float64) + 5000
						}
						return evs
					}
				}
				return evs
			})
		}
		for i := 0; i < 8; i++ {
			i := i
			c.Canary("off", layered, func(evs []vh.Ev) []vh.Ev {
				for k := len(evs) - 1; k >= 0; k-- {
					if i%2 == 0 && evs[k]["e"] == "Fit" {
						evs[k]["wires"] = evs[k]["wires"].([]interface{})[1:]
						return evs
					}
					if i%2 == 1 && evs[k]["e"] == "Predict" {
						evs[k]["got"] = evs[k]["got"].([]interface{})[1:]
						return evs
					}
				}
				return evs
			})
		}
	})
}
