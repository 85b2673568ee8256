package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

type fltKind struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
}

type fltOp struct {
	Op      string
	Attrs   []fltKind
	Rows    [][]int
	Kind    string
	Chosen  []int
	Cls     []int
	R, I, X int
	J       int
	On      bool
}

// fltAttr makes a new attribute object of a kind.
func fltAttr(k fltKind, name string) base.Attribute {
	switch k.Kind {
	case "f":
		return base.NewFloatAttribute(name)
	case "b":
		return base.NewBinaryAttribute(name)
	}
	a := base.NewCategoricalAttribute()
	a.SetName(name)
	for j := 0; j < k.N; j++ {
		a.GetSysValFromString(fmt.Sprintf("L%d", j+1))
	}
	return a
}

// fltStore is how a history's small integers are stored: numbers as multiples of a power of two,
// set bits as some byte which isn't nothing.
type fltStore struct {
	exp int
	set byte
}

func (st fltStore) bytes(k fltKind, x int) []byte {
	switch k.Kind {
	case "f":
		return base.PackFloatToBytes(math.Ldexp(float64(x), st.exp))
	case "b":
		return []byte{byte(x) * st.set}
	}
	return base.PackU64ToBytes(uint64(x))
}

// read takes a cell of a source attribute back to its integer.
func (st fltStore) read(a base.Attribute, b []byte) int {
	switch a.(type) {
	case *base.FloatAttribute:
		return vh.Int(math.Ldexp(base.UnpackBytesToFloat(b), -st.exp))
	case *base.BinaryAttribute:
		if len(b) != 1 { // grids keep bits, whatever byte set them
			return vh.BadInt
		}
		return int(b[0])
	}
	return int(base.UnpackBytesToU64(b))
}

// fltInt reads a cell of a converted attribute.
func fltInt(a base.Attribute, b []byte) int {
	return fltStore{0, 1}.read(a, b)
}

func fltType(a base.Attribute) string {
	switch a.(type) {
	case *base.FloatAttribute:
		return "f"
	case *base.BinaryAttribute:
		return "b"
	}
	return "c"
}

// customFilter shows a number as its negative and its successor.
type customFilter struct {
	all  []base.FilteredAttribute
	want []base.Attribute
}

func (c *customFilter) AddAttribute(a base.Attribute) error {
	c.want = append(c.want, a)
	return nil
}

func (c *customFilter) Train() error {
	for i := len(c.want) - 1; i >= 0; i-- {
		for _, s := range []string{"_L1", "_L2"} {
			c.all = append(c.all, base.FilteredAttribute{Old: c.want[i], New: base.NewFloatAttribute(c.want[i].GetName() + s)})
		}
	}
	return nil
}
func (c *customFilter) GetAttributesAfterFiltering() []base.FilteredAttribute { return c.all }
func (c *customFilter) String() string                                        { return "custom" }
func (c *customFilter) Transform(old, new base.Attribute, b []byte) []byte {
	x := base.UnpackBytesToFloat(b)
	if new.GetName() == old.GetName()+"_L1" {
		return base.PackFloatToBytes(0 - x)
	}
	return base.PackFloatToBytes(x + 1)
}

// fltNames: now and then an attribute which isn't filtered shares the name of one that is, but not its type.
func fltNames(t *vh.T, b fltOp) []string {
	chosen := map[int]bool{}
	for _, i := range b.Chosen {
		chosen[i] = true
	}
	names, used := make([]string, len(b.Attrs)), map[string]bool{}
	for i := range names {
		names[i] = fmt.Sprintf("a%d", i+1)
	}
	for i, k := range b.Attrs {
		for _, j := range b.Chosen {
			if !chosen[i+1] && k.Kind == "c" && b.Attrs[j-1].Kind != "c" && !used[names[j-1]] && t.Rng.Intn(2) == 0 {
				names[i] = names[j-1]
				used[names[i]] = true
				break
			}
		}
	}
	return names
}

func filterScenario(raw json.RawMessage) func(t *vh.T) {
	return func(t *vh.T) {
		var ops []fltOp
		must(json.Unmarshal(raw, &ops))
		b := ops[0]
		st := fltStore{0, []byte{1, 2, 255}[t.Rng.Intn(3)]}
		if b.Kind != "custom" {
			st.exp = []int{0, 0, -400, 100}[t.Rng.Intn(4)]
		}
		t.Note("store", vh.Ev{"exp": st.exp, "set": int(st.set)})
		dense := base.NewDenseInstances()
		var mine []base.Attribute
		names := fltNames(t, b)
		for i, k := range b.Attrs {
			a := fltAttr(k, names[i])
			mine = append(mine, a)
			dense.AddAttribute(a)
		}
		dense.Extend(len(b.Rows))
		specs := base.ResolveAttributes(dense, mine)
		for r, row := range b.Rows {
			for i, x := range row {
				dense.Set(specs[i], r, st.bytes(b.Attrs[i], x))
			}
		}
		var src base.FixedDataGrid = dense
		rowOf := make([]int, len(b.Rows)) // visible row -> stored row
		for i := range rowOf {
			rowOf[i] = i
		}
		for _, i := range b.Cls {
			must(dense.AddClassAttribute(mine[i-1]))
		}
		useView := len(b.Rows) > 0 && t.Rng.Intn(2) == 0
		if useView {
			t.Rng.Shuffle(len(rowOf), func(i, j int) { rowOf[i], rowOf[j] = rowOf[j], rowOf[i] })
			src = base.NewInstancesViewFromVisible(dense, rowOf, dense.AllAttributes())
		}
		// The attributes given to the filter may be other objects than the source's, but equal ones.
		other := t.Rng.Intn(2) == 0
		t.Note("equal_but_other_objects", other)
		t.Note("view", useView)
		fresh := func(i int) base.Attribute { return fltAttr(b.Attrs[i-1], names[i-1]) }
		var f base.Filter
		switch b.Kind {
		case "binary":
			f = filters.NewBinaryConvertFilter()
		case "float":
			f = filters.NewFloatConvertFilter()
		default:
			f = &customFilter{}
		}
		for _, i := range b.Chosen {
			a := mine[i-1]
			if other {
				a = fresh(i)
			}
			must(f.AddAttribute(a))
		}
		must(f.Train())
		l := base.NewLazilyFilteredInstances(src, f)
		// names of the images
		chosen := map[int]bool{}
		for _, i := range b.Chosen {
			chosen[i] = true
		}
		imgs := func(i int) []base.Attribute {
			k := b.Attrs[i-1]
			ty := map[string]string{"binary": "b", "float": "f", "custom": "f"}[b.Kind]
			mk := func(name string) base.Attribute {
				if ty == "b" {
					return base.NewBinaryAttribute(name)
				}
				return base.NewFloatAttribute(name)
			}
			name := names[i-1]
			n := 1
			if b.Kind == "custom" {
				n = 2
			} else if k.Kind == "c" && k.N > 2 {
				n = k.N
			}
			switch {
			case !chosen[i] || (b.Kind != "custom" && k.Kind == ty):
				return []base.Attribute{fresh(i)}
			case n == 1:
				return []base.Attribute{mk(name)}
			}
			var out []base.Attribute
			for j := 1; j <= n; j++ {
				out = append(out, mk(fmt.Sprintf("%s_L%d", name, j)))
			}
			return out
		}
		id := func(a base.Attribute) []interface{} {
			for i := 1; i <= len(b.Attrs); i++ {
				for j, im := range imgs(i) {
					if im.GetName() == a.GetName() && fltType(im) == fltType(a) {
						return []interface{}{i, j + 1, fltType(a)}
					}
				}
			}
			return []interface{}{-1, -1, a.GetName()}
		}
		cell := func(a base.Attribute, x []byte) int {
			i := id(a)[0].(int)
			if i < 1 || !(!chosen[i] || (b.Kind == "binary" && b.Attrs[i-1].Kind == "b") || (b.Kind == "float" && b.Attrs[i-1].Kind == "f")) {
				return fltInt(a, x)
			}
			return st.read(a, x)
		}
		shown := func() {
			at := make([]interface{}, 0)
			var as []base.Attribute
			for _, a := range l.AllAttributes() {
				at = append(at, id(a))
				as = append(as, a)
			}
			cl := make([]interface{}, 0)
			for _, a := range l.AllClassAttributes() {
				cl = append(cl, id(a))
			}
			found, old := make([]interface{}, 0), make([]int, 0)
			for i := 1; i <= len(b.Attrs); i++ {
				for _, im := range imgs(i) {
					if sp, err := l.GetAttribute(im); err == nil && sp.GetAttribute().Equals(im) {
						found = append(found, id(im))
					}
				}
				if _, err := l.GetAttribute(fresh(i)); err == nil {
					old = append(old, i)
				}
			}
			_, n := l.Size()
			rows := make([][]int, n)
			var sp []base.AttributeSpec
			for _, a := range as {
				// looked up through the object the grid reports, or an equal one
				for k, im := range imgs(id(a)[0].(int)) {
					if k+1 == id(a)[1].(int) && t.Rng.Intn(2) == 0 {
						a = im
					}
				}
				s, err := l.GetAttribute(a)
				must(err)
				sp = append(sp, s)
			}
			for r := range rows {
				rows[r] = make([]int, 0)
				for k := range as {
					rows[r] = append(rows[r], cell(as[k], l.Get(sp[k], r)))
				}
			}
			perm := t.Rng.Perm(len(as))
			mat := make([]interface{}, 0)
			var msp []base.AttributeSpec
			for _, k := range perm {
				mat = append(mat, id(as[k]))
				msp = append(msp, sp[k])
			}
			mapped := make([][]int, 0)
			must(l.MapOverRows(msp, func(row [][]byte, no int) (bool, error) {
				x := make([]int, 0)
				for k := range row {
					x = append(x, cell(as[perm[k]], row[k]))
				}
				if no != len(mapped) {
					x = append(x, vh.BadInt)
				}
				mapped = append(mapped, x)
				return true, nil
			}))
			t.Log(vh.Ev{"e": "Shown", "shown": vh.Ev{"at": at, "n": n, "cls": cl, "found": found, "oldfound": old, "rows": rows, "mat": mat, "mapped": mapped}})
		}
		pos := func(a base.Attribute) int {
			for i, b := range mine {
				if a.Equals(b) {
					return i + 1
				}
			}
			return -1
		}
		order := make([]int, 0)
		for _, a := range src.AllAttributes() {
			order = append(order, pos(a))
		}
		visible := make([][]int, len(b.Rows))
		for r := range visible {
			visible[r] = b.Rows[rowOf[r]]
		}
		t.Log(vh.Ev{"e": "Begin", "attrs": b.Attrs, "rows": visible, "kind": b.Kind, "chosen": b.Chosen, "cls": b.Cls, "order": order})
		shown()
		for _, o := range ops[1:] {
			switch o.Op {
			case "Write":
				dense.Set(specs[o.I-1], rowOf[o.R-1], st.bytes(b.Attrs[o.I-1], o.X))
				t.Log(vh.Ev{"e": "Write", "r": o.R, "i": o.I, "x": o.X})
			case "MarkOld", "MarkNew":
				a := fresh(o.I)
				if o.Op == "MarkOld" && t.Rng.Intn(2) == 0 {
					a = mine[o.I-1]
				}
				if o.Op == "MarkNew" {
					a = imgs(o.I)[o.J-1]
				}
				op := l.AddClassAttribute
				if !o.On {
					op = l.RemoveClassAttribute
				}
				t.Log(vh.Ev{"e": o.Op, "i": o.I, "j": o.J, "on": o.On, "ok": op(a) == nil})
			case "Unknown":
				a := base.NewFloatAttribute("elsewhere")
				_, err := l.GetAttribute(a)
				t.Log(vh.Ev{"e": "Unknown", "ok": err == nil || l.AddClassAttribute(a) == nil || l.RemoveClassAttribute(a) == nil})
			default:
				continue
			}
			shown()
		}
		rows := make([][]int, 0)
		for r := range b.Rows {
			row := make([]int, 0)
			for i := range b.Attrs {
				row = append(row, st.read(mine[i], dense.Get(specs[i], rowOf[r])))
			}
			rows = append(rows, row)
		}
		t.Log(vh.Ev{"e": "Source", "rows": rows})
	}
}

// fltBig makes up a history with many labels or many rows.
func fltBig(r *rand.Rand) json.RawMessage {
	b := fltOp{Op: "Begin", Kind: []string{"binary", "float"}[r.Intn(2)], Chosen: []int{}, Cls: []int{}, Rows: [][]int{}}
	rows := 1 + r.Intn(4)
	if r.Intn(2) == 0 {
		rows = 257 + r.Intn(60)
		for n := 2 + r.Intn(3); n > 0; n-- {
			b.Attrs = append(b.Attrs, fltKind{[]string{"f", "b", "c"}[r.Intn(3)], 2 + r.Intn(4)})
		}
	} else {
		b.Attrs = []fltKind{{"f", 0}, {"c", 130 + r.Intn(170)}, {"b", 0}}
	}
	for i := range b.Attrs {
		if r.Intn(5) > 0 {
			b.Chosen = append(b.Chosen, i+1)
		}
		if r.Intn(4) == 0 {
			b.Cls = append(b.Cls, i+1)
		}
	}
	val := func(k fltKind) int {
		switch k.Kind {
		case "f":
			return r.Intn(5) - 2
		case "b":
			return r.Intn(2)
		}
		if r.Intn(2) == 0 {
			return k.N - 1 - r.Intn(3)%k.N
		}
		return r.Intn(k.N)
	}
	for i := 0; i < rows; i++ {
		var row []int
		for _, k := range b.Attrs {
			row = append(row, val(k))
		}
		b.Rows = append(b.Rows, row)
	}
	ops := []fltOp{b}
	for n := r.Intn(3); n > 0; n-- {
		i := 1 + r.Intn(len(b.Attrs))
		if r.Intn(2) == 0 {
			ops = append(ops, fltOp{Op: "MarkOld", I: i, On: r.Intn(3) > 0})
		} else {
			ops = append(ops, fltOp{Op: "Write", R: 1 + r.Intn(rows), I: i, X: val(b.Attrs[i-1])})
		}
	}
	raw, err := json.Marshal(ops)
	must(err)
	return raw
}

func init() {
	vh.Register("C15", func(c *vh.Ctx) {
		scn := c.Scenarios("filter")
		for _, raw := range scn {
			c.Case("history", filterScenario(raw))
		}
		for i := 0; i < c.N(16, 80); i++ {
			c.Case("many", func(t *vh.T) { filterScenario(fltBig(t.Rng))(t) })
		}
		n := 0
		for _, raw := range scn {
			var ops []fltOp
			must(json.Unmarshal(raw, &ops))
			if len(ops[0].Rows) == 0 || len(ops[0].Chosen) == 0 {
				continue
			}
			n++
			if n > 5 {
				break
			}
			for _, what := range []string{"rows", "mapped", "cls"} {
				what := what
				c.Canary(what, filterScenario(raw), func(evs []vh.Ev) []vh.Ev {
					s := evs[1]["shown"].(map[string]interface{})
					if what == "cls" {
						s["cls"] = append(s["cls"].([]interface{}), []interface{}{9, 9, "f"})
						return evs
					}
					row := s[what].([]interface{})[0].([]interface{})
					row[0] = row[0].(float64) + 7
					return evs
				})
			}
		}
	})
}
