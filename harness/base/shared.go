package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
	"gonum.org/v1/gonum/mat"
)

// sharedCall is one operation of a goroutine, and what it was told.
type sharedCall struct {
	o         map[string]interface{}
	call, ret int64
	ok        bool
	list      []vh.Ev
	attr      base.Attribute
	spec      base.AttributeSpec
}

// guard is vh.Try for goroutines that run at the same time.
func guard(f func()) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	f()
	return true
}

func (sc *sharedCall) run(g *base.DenseInstances) {
	str := func(k string) string { v, _ := sc.o[k].(string); return v }
	num := func(k string) int { v, _ := sc.o[k].(float64); return int(v) }
	var err error
	var list []base.Attribute
	ok := guard(func() {
		switch str("op") {
		case "NewGroup":
			w := 8
			if str("g") == "gb" {
				w = 0
			}
			err = g.CreateAttributeGroup(str("g"), w)
		case "GetGroup":
			_, err = g.GetAttributeGroup(str("g"))
		case "AddAttr":
			sc.attr = mkAttr(str("k"), str("n"))
			sc.spec = g.AddAttribute(sc.attr)
		case "AddAttrTo":
			sc.attr = mkAttr(str("k"), str("n"))
			sc.spec, err = g.AddAttributeToAttributeGroup(sc.attr, str("g"))
		case "Mark":
			err = g.AddClassAttribute(mkAttr(str("k"), str("n")))
		case "Unmark":
			err = g.RemoveClassAttribute(mkAttr(str("k"), str("n")))
		case "Lookup":
			_, err = g.GetAttribute(mkAttr(str("k"), str("n")))
		case "Extend":
			err = g.Extend(num("x"))
		case "All":
			list = g.AllAttributes()
		case "Classes":
			list = g.AllClassAttributes()
		default:
			panic("unknown op")
		}
	})
	sc.ok = ok && err == nil
	sc.list = attrRecs(list)
}

// together runs the programs at once on the grid. Timed runs take numbers from a shared counter
// before and after each operation; the others leave the goroutines entirely alone between start
// and end, so that nothing but the grid itself orders what they do.
func together(g *base.DenseInstances, progs [][]*sharedCall, timed bool, spin func(t, i int) int) {
	var clock int64
	var wg sync.WaitGroup
	gate := make(chan bool)
	for t := range progs {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			<-gate
			x := 0
			for i, sc := range progs[t] {
				n := spin(t, i)
				for j := 0; j < n; j++ {
					x += j
				}
				if n%7 == 3 {
					runtime.Gosched()
				}
				if timed {
					sc.call = atomic.AddInt64(&clock, 1)
				}
				sc.run(g)
				if timed {
					sc.ret = atomic.AddInt64(&clock, 1)
				} else {
					sc.ret = 1000000
				}
			}
			_ = x
		}(t)
	}
	close(gate)
	wg.Wait()
}

func logTogether(t *vh.T, progs [][]*sharedCall) {
	out := make([][]vh.Ev, len(progs))
	for i := range progs {
		out[i] = make([]vh.Ev, 0)
		for _, sc := range progs[i] {
			out[i] = append(out[i], vh.Ev{"o": sc.o, "call": sc.call, "ret": sc.ret, "ok": sc.ok, "list": sc.list})
		}
	}
	t.Log(vh.Ev{"e": "Together", "prog": out})
}

// settled looks at what became of the grid.
func settled(t *vh.T, g *base.DenseInstances, all [][]*sharedCall) {
	cols, rows := g.Size()
	e := vh.Ev{"e": "Settled", "rows": rows, "ncols": cols, "attrs": attrRecs(g.AllAttributes()), "cls": attrRecs(g.AllClassAttributes())}
	gs := vh.Ev{}
	for _, n := range []string{"g1", "g2", "gb"} {
		_, err := g.GetAttributeGroup(n)
		gs[n] = err == nil
	}
	e["groups"] = gs
	var added []*sharedCall
	for _, p := range all {
		for _, sc := range p {
			if sc.attr != nil && sc.ok {
				added = append(added, sc)
			}
		}
	}
	recs, again := make([]vh.Ev, 0), make([]base.AttributeSpec, 0)
	specs, width, stored := make([]base.AttributeSpec, 0), make([]int, 0), make([][]string, 0)
	for i, sc := range added {
		r := attrRec(sc.attr)
		recs = append(recs, r)
		w := 8
		if r["k"] == "B" {
			w = 0
		}
		specs, width = append(specs, sc.spec), append(width, w)
		sp, err := g.GetAttribute(fresh(sc.attr))
		if err != nil {
			sp = base.AttributeSpec{}
		}
		again = append(again, sp)
		row := make([]string, rows)
		for k := 0; k < rows; k++ {
			row[k] = gridToks[(i*7+k*3+i/4)%4]
			if w == 0 && row[k] != "z" {
				row[k] = "v1"
			}
		}
		stored = append(stored, row)
	}
	for i := range added {
		for k := 0; k < rows; k++ {
			i, k := i, k
			guard(func() { g.Set(specs[i], k, tokBytes(stored[i][k], width[i])) })
		}
	}
	e["added"], e["stored"] = recs, stored
	e["cells"], e["again"] = readAll(g, specs, width), readAll(g, again, width)
	t.Log(e)
}

func sharedScenario(raw json.RawMessage, timed bool, rounds int) func(t *vh.T) {
	return func(t *vh.T) {
		var steps []struct {
			T int
			O map[string]interface{}
		}
		if err := json.Unmarshal(raw, &steps); err != nil {
			panic(err)
		}
		prologue := t.Rng.Intn(2) == 0
		for round := 0; round < rounds; round++ {
			g := base.NewDenseInstances()
			var all [][]*sharedCall
			if prologue {
				one := [][]*sharedCall{{}}
				for _, n := range []string{"g1", "gb"} {
					one[0] = append(one[0], &sharedCall{o: map[string]interface{}{"op": "NewGroup", "g": n}})
				}
				together(g, one, true, func(t, i int) int { return 0 })
				t.Log(vh.Ev{"e": "Fresh"})
				logTogether(t, one)
				all = append(all, one...)
			} else {
				t.Log(vh.Ev{"e": "Fresh"})
			}
			progs := make([][]*sharedCall, 4)
			for i := range progs {
				progs[i] = make([]*sharedCall, 0)
			}
			for _, s := range steps {
				if s.T == 0 || (prologue && s.O["op"] == "NewGroup" && s.O["g"] != "g2") {
					continue
				}
				progs[s.T-1] = append(progs[s.T-1], &sharedCall{o: s.O})
			}
			together(g, progs, timed, spins(t, len(progs)))
			logTogether(t, progs)
			settled(t, g, append(all, progs...))
		}
	}
}

// spins draws how long each goroutine dawdles before each of its operations.
func spins(t *vh.T, n int) func(t, i int) int {
	tab := make([][]int, n)
	for i := range tab {
		tab[i] = make([]int, 64)
		for j := range tab[i] {
			tab[i][j] = []int{0, 0, 3, 200, 2000}[t.Rng.Intn(5)]
		}
	}
	return func(t, i int) int { return tab[t][i%64] }
}

// crowd has goroutines add many attributes and mark and list them.
func crowd(workers, each int, timed bool) func(t *vh.T) {
	return func(t *vh.T) {
		g := base.NewDenseInstances()
		progs := make([][]*sharedCall, workers)
		for w := range progs {
			for i := 0; i < each; i++ {
				k := []string{"F", "C", "B"}[t.Rng.Intn(3)]
				n := fmt.Sprintf("w%d.%d", w, i)
				progs[w] = append(progs[w], &sharedCall{o: map[string]interface{}{"op": "AddAttr", "k": k, "n": n}})
				if t.Rng.Intn(3) == 0 {
					op := []string{"Mark", "Lookup", "Unmark", "Mark"}[t.Rng.Intn(4)]
					progs[w] = append(progs[w], &sharedCall{o: map[string]interface{}{"op": op, "k": k, "n": n}})
				}
				if t.Rng.Intn(6) == 0 {
					progs[w] = append(progs[w], &sharedCall{o: map[string]interface{}{"op": []string{"All", "Classes"}[t.Rng.Intn(2)]}})
				}
			}
		}
		t.Log(vh.Ev{"e": "Fresh"})
		together(g, progs, timed, spins(t, workers))
		logTogether(t, progs)
		last := [][]*sharedCall{{{o: map[string]interface{}{"op": "Extend", "x": 2.0}}}}
		together(g, last, true, func(t, i int) int { return 0 })
		logTogether(t, last)
		settled(t, g, append(progs, last...))
	}
}

// sharedGrid makes one of the kinds of grid, the same for the same kind.
func sharedGrid(kind string, rows int) base.FixedDataGrid {
	d := base.NewDenseInstances()
	var as []base.Attribute
	for i := 0; i < 3; i++ {
		as = append(as, base.NewFloatAttribute(fmt.Sprintf("f%d", i)))
	}
	as = append(as, base.NewBinaryAttribute("b0"), base.NewBinaryAttribute("b1"))
	for i := 0; i < 2; i++ {
		c := new(base.CategoricalAttribute)
		c.SetName(fmt.Sprintf("c%d", i))
		for j := 0; j < 3; j++ {
			c.GetSysValFromString(fmt.Sprintf("L%d", j))
		}
		as = append(as, c)
	}
	var specs []base.AttributeSpec
	for _, a := range as {
		specs = append(specs, d.AddAttribute(a))
	}
	d.AddClassAttribute(as[6])
	d.Extend(rows)
	for i, s := range specs {
		for r := 0; r < rows; r++ {
			x := (r*(i+3) + r*r + i) % 7
			switch as[i].(type) {
			case *base.FloatAttribute:
				d.Set(s, r, base.PackFloatToBytes(float64(x)/4))
			case *base.BinaryAttribute:
				d.Set(s, r, []byte{byte(x & 1)})
			default:
				d.Set(s, r, base.PackU64ToBytes(uint64(x%3)))
			}
		}
	}
	filter := func(g base.FixedDataGrid, f base.Filter, of func(base.Attribute) bool) base.FixedDataGrid {
		for _, a := range base.NonClassAttributes(g) {
			if of(a) {
				f.AddAttribute(a)
			}
		}
		if err := f.Train(); err != nil {
			panic(err)
		}
		return base.NewLazilyFilteredInstances(g, f)
	}
	isFloat := func(a base.Attribute) bool { _, ok := a.(*base.FloatAttribute); return ok }
	isCat := func(a base.Attribute) bool { _, ok := a.(*base.CategoricalAttribute); return ok }
	some := map[int]int{}
	for i := 0; i < rows; i += 2 {
		some[i/2] = rows - 1 - i
	}
	var odd []int
	for i := rows - 1; i >= 0; i -= 3 {
		odd = append(odd, i)
	}
	switch kind {
	case "dense":
		return d
	case "rows":
		return base.NewInstancesViewFromRows(d, some)
	case "visible":
		return base.NewInstancesViewFromVisible(d, odd, as[1:])
	case "attrs":
		v := base.NewInstancesViewFromAttrs(d, []base.Attribute{as[6], as[0], as[4]})
		v.AddClassAttribute(as[6])
		return v
	case "binned":
		return filter(d, filters.NewBinningFilter(d, 3), isFloat)
	case "merged":
		return filter(d, filters.NewChiMergeFilter(d, 0.9), isFloat)
	case "onehot":
		return filter(d, filters.NewBinaryConvertFilter(), isCat)
	case "floats":
		return filter(d, filters.NewFloatConvertFilter(), isCat)
	case "viewbinned":
		b := filter(d, filters.NewBinningFilter(d, 2), isFloat)
		return base.NewInstancesViewFromVisible(b, odd, b.AllAttributes())
	case "binnedview":
		v := base.NewInstancesViewFromVisible(d, odd, as)
		return filter(v, filters.NewBinningFilter(v, 2), isFloat)
	case "shuffled":
		return base.LazyShuffle(d)
	case "sorted":
		s, err := base.LazySort(d, base.Ascending, specs[:1])
		if err != nil {
			panic(err)
		}
		return s
	case "frame":
		m := mat.NewDense(rows, 3, nil)
		for r := 0; r < rows; r++ {
			for c := 0; c < 3; c++ {
				m.Set(r, c, float64(r*3-c))
			}
		}
		g := base.InstancesFromMat64(rows, 3, m)
		g.AddClassAttribute(g.AllAttributes()[2])
		return g
	}
	panic(kind)
}

var sharedKinds = []string{"dense", "rows", "visible", "attrs", "binned", "merged", "onehot", "floats", "viewbinned", "binnedview", "sorted", "frame"}

// ways of reading a grid; each gives what it saw as text.
func sortedMap(m map[string]int) string {
	var ks []string
	for k, n := range m {
		ks = append(ks, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func names(as []base.Attribute) string {
	var out []string
	for _, a := range as {
		out = append(out, a.GetName())
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

var sharedReads = []struct {
	name string
	read func(g base.FixedDataGrid, specs []base.AttributeSpec) string
}{
	{"Get", func(g base.FixedDataGrid, specs []base.AttributeSpec) string {
		var b strings.Builder
		_, n := g.Size()
		for r := 0; r < n; r++ {
			for _, s := range specs {
				b.WriteString(s.GetAttribute().GetStringFromSysVal(g.Get(s, r)) + " ")
			}
		}
		return b.String()
	}},
	{"MapOverRows", func(g base.FixedDataGrid, specs []base.AttributeSpec) string {
		var b strings.Builder
		as := specs
		g.MapOverRows(as, func(row [][]byte, r int) (bool, error) {
			for i, v := range row {
				b.WriteString(as[i].GetAttribute().GetStringFromSysVal(v) + " ")
			}
			runtime.Gosched()
			return true, nil
		})
		return b.String()
	}},
	{"RowString", func(g base.FixedDataGrid, specs []base.AttributeSpec) string {
		var b strings.Builder
		_, n := g.Size()
		for r := 0; r < n; r++ {
			b.WriteString(g.RowString(r) + ";")
		}
		return b.String()
	}},
	{"String", func(g base.FixedDataGrid, specs []base.AttributeSpec) string {
		p, ok := g.(fmt.Stringer)
		if !ok {
			return ""
		}
		ls := strings.Split(p.String(), "\n")
		sort.Strings(ls)
		return strings.Join(ls, ";")
	}},
	{"Attributes", func(g base.FixedDataGrid, specs []base.AttributeSpec) string {
		m, n := g.Size()
		out := fmt.Sprint(m, n, names(g.AllAttributes()), names(g.AllClassAttributes()), names(base.NonClassAttributes(g)))
		for _, a := range g.AllAttributes() {
			s, err := g.GetAttribute(a)
			out += fmt.Sprint(err == nil && s.GetAttribute().Equals(a))
		}
		return out
	}},
	{"Classes", func(g base.FixedDataGrid, specs []base.AttributeSpec) string {
		var b strings.Builder
		_, n := g.Size()
		for r := 0; r < n; r++ {
			b.WriteString(base.GetClass(g, r) + " ")
		}
		return b.String()
	}},
	{"Distribution", func(g base.FixedDataGrid, specs []base.AttributeSpec) string {
		return sortedMap(base.GetClassDistribution(g))
	}},
	{"Copy", func(g base.FixedDataGrid, specs []base.AttributeSpec) string {
		c := base.NewDenseCopy(g)
		_, n := c.Size()
		out := ""
		for r := 0; r < n; r++ {
			out += c.RowString(r) + ";"
		}
		return out
	}},
	{"Window", func(g base.FixedDataGrid, specs []base.AttributeSpec) string {
		_, n := g.Size()
		var rows []int
		for r := n - 1; r >= 0; r -= 2 {
			rows = append(rows, r)
		}
		v := base.NewInstancesViewFromVisible(g, rows, g.AllAttributes())
		out := ""
		for r := range rows {
			for _, s := range base.ResolveAllAttributes(v) {
				out += s.GetAttribute().GetStringFromSysVal(v.Get(s, r)) + " "
			}
		}
		return out
	}},
	{"CSV", func(g base.FixedDataGrid, specs []base.AttributeSpec) string {
		var b bytes.Buffer
		err := base.SerializeInstancesToCSVStream(g, &b)
		out := "" // the order of the columns is nobody's promise
		for _, ln := range strings.Split(b.String(), "\n") {
			fs := strings.Split(ln, ",")
			sort.Strings(fs)
			out += strings.Join(fs, ",") + ";"
		}
		return fmt.Sprint(out, err)
	}},
	{"Predictions", func(g base.FixedDataGrid, specs []base.AttributeSpec) string {
		p := base.GeneratePredictionVector(g)
		_, n := g.Size()
		for r := 0; r < n; r++ {
			base.SetClass(p, r, base.GetClass(g, r))
		}
		out := ""
		for r := 0; r < n; r++ {
			out += base.GetClass(p, r) + " "
		}
		return out
	}},
	{"Binning", func(g base.FixedDataGrid, specs []base.AttributeSpec) string {
		f := filters.NewBinningFilter(g, 2)
		for _, a := range base.NonClassFloatAttributes(g) {
			f.AddAttribute(a)
		}
		if err := f.Train(); err != nil {
			return err.Error()
		}
		l := base.NewLazilyFilteredInstances(g, f)
		_, n := l.Size()
		out := ""
		for r := 0; r < n; r++ {
			out += l.RowString(r) + ";"
		}
		return out
	}},
	{"Sorted", func(g base.FixedDataGrid, specs []base.AttributeSpec) string {
		as := base.ResolveAllAttributes(g)
		s, err := base.LazySort(g, base.Ascending, as[:1])
		if err != nil {
			return err.Error()
		}
		_, n := s.Size()
		out := ""
		for r := 0; r < n; r++ {
			out += as[0].GetAttribute().GetStringFromSysVal(s.Get(as[0], r)) + " "
		}
		return out
	}},
}

// readable: some readings need a categorical class, which not every grid has.
func readable(kind, read string) bool {
	if kind == "frame" {
		return read != "Classes" && read != "Predictions" && read != "Distribution"
	}
	return true
}

func readers(kind string, rows, workers int) func(t *vh.T) {
	return func(t *vh.T) {
		g, ref := sharedGrid(kind, rows), sharedGrid(kind, rows)
		specs, refSpecs := base.ResolveAllAttributes(g), base.ResolveAllAttributes(ref)
		var use []int
		for i := range sharedReads {
			if readable(kind, sharedReads[i].name) {
				use = append(use, i)
			}
		}
		alone := vh.Ev{}
		for _, i := range use {
			i := i
			out := "panic"
			guard(func() { out = sharedReads[i].read(ref, refSpecs) })
			alone[sharedReads[i].name] = out
		}
		// In every phase the goroutines are new, and nothing but the grid is between them: first all
		// read in one way, then each in a way of its own.
		for phase := 0; phase < len(use)+4; phase++ {
			seen := make([]vh.Ev, workers)
			ways := make([]int, workers)
			for w := range ways {
				ways[w] = use[phase%len(use)]
				if phase >= len(use) {
					ways[w] = use[t.Rng.Intn(len(use))]
				}
			}
			gate := make(chan bool)
			var wg sync.WaitGroup
			for w := 0; w < workers; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					<-gate
					out := "panic"
					guard(func() { out = sharedReads[ways[w]].read(g, specs) })
					seen[w] = vh.Ev{"way": sharedReads[ways[w]].name, "saw": out}
				}(w)
			}
			close(gate)
			wg.Wait()
			t.Log(vh.Ev{"e": "Readers", "alone": alone, "seen": seen})
		}
	}
}

// listing has some goroutines add attributes, turn by turn to groups far apart, while others list them.
func listing(adders, listers, each int) func(t *vh.T) {
	return func(t *vh.T) {
		g := base.NewDenseInstances()
		one := [][]*sharedCall{{}}
		groups := []string{"g1", "gb", "g2"}
		for i, n := range groups {
			k := []string{"F", "B", "F"}[i]
			one[0] = append(one[0], &sharedCall{o: map[string]interface{}{"op": "NewGroup", "g": n}},
				&sharedCall{o: map[string]interface{}{"op": "AddAttrTo", "g": n, "k": k, "n": "first" + n}})
		}
		t.Log(vh.Ev{"e": "Fresh"})
		together(g, one, true, func(t, i int) int { return 0 })
		logTogether(t, one)
		progs := make([][]*sharedCall, adders+listers)
		for w := range progs {
			for i := 0; i < each; i++ {
				o := map[string]interface{}{"op": "All"}
				if w < adders {
					o = map[string]interface{}{"op": "AddAttrTo", "g": groups[2*(i%2)], "k": "F", "n": fmt.Sprintf("w%d.%d", w, i)}
				}
				progs[w] = append(progs[w], &sharedCall{o: o})
			}
		}
		together(g, progs, true, func(t, i int) int { return 0 })
		logTogether(t, progs)
		settled(t, g, append(one, progs...))
	}
}

func init() {
	vh.Register("C47", func(c *vh.Ctx) {
		sc := c.Scenarios("shared")
		for _, raw := range sc {
			c.Case("layout", sharedScenario(raw, false, 3))
			c.Case("timed", sharedScenario(raw, true, 3))
		}
		for i := 0; i < c.N(24, 200); i++ {
			c.Case("crowd", crowd(2+i%5, 6+i%20, true))
			c.Case("crowd-loose", crowd(2+i%2, 6+i%14, false))
		}
		for i := 0; i < c.N(16, 150); i++ {
			c.Case("listing", listing(1+i%3, 1+i/3%3, 60+i%40))
		}
		for i := 0; i < c.N(2, 24); i++ {
			for _, k := range sharedKinds {
				c.Case("read-"+k, readers(k, 9+i*7, 4))
			}
		}
		for i := 0; i < 3 && i < len(sc); i++ {
			for _, what := range []string{"ok", "list", "rows", "cell"} {
				what := what
				c.Canary(what, sharedScenario(sc[i], true, 1), func(evs []vh.Ev) []vh.Ev { return spoilShared(evs, what) })
			}
			c.Canary("seen", readers(sharedKinds[i], 9, 4), func(evs []vh.Ev) []vh.Ev {
				evs[0]["seen"].([]interface{})[2].(map[string]interface{})["saw"] = "else"
				return evs
			})
		}
	})
}

// spoilShared falsifies a record of goroutines.
func spoilShared(evs []vh.Ev, what string) []vh.Ev {
	last := evs[len(evs)-1]
	switch what {
	case "rows":
		last["rows"] = 77
		return evs
	case "cell":
		cs := last["attrs"].([]interface{})
		if len(cs) > 0 {
			last["attrs"] = cs[1:]
			return evs
		}
	default:
		for j := len(evs) - 1; j >= 0; j-- {
			if evs[j]["e"] != "Together" {
				continue
			}
			for _, p := range evs[j]["prog"].([]interface{}) {
				for _, x := range p.([]interface{}) {
					m := x.(map[string]interface{})
					op := m["o"].(map[string]interface{})["op"]
					if what == "ok" && op != "NewGroup" {
						m["ok"] = m["ok"] != true
						if op == "All" || op == "Classes" || op == "Extend" || op == "AddAttr" {
							return evs
						}
						m["ok"] = m["ok"] != true
					}
					if what == "list" && (op == "All" || op == "Classes") {
						m["list"] = append(m["list"].([]interface{}), vh.Ev{"k": "F", "n": "ghost"})
						return evs
					}
				}
			}
		}
	}
	return []vh.Ev{{"e": "Panic"}}
}
