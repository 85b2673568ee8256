package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/verifdrv/gridkit"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

type kstep struct {
	Op   string `json:"op"`
	Key  int    `json:"key"`
	Kind string `json:"kind"`
	Who  int    `json:"who"`
}

// keyNames are prefixes of each other, long, and not all ASCII.
var keyNames = []string{"a", "a1", "a/b", "b", "b/a", "a b", "\u00e9/\u00fc", "A",
	strings.Repeat("deep/", 60) + "x", strings.Repeat("deep/", 60) + "y", "METADATA2", "CLASSIFIERS/0//tree"}

func someAttr(rng *rand.Rand) base.Attribute {
	name := []string{"f", "g", "k \"x\"", "\u00e9", ""}[rng.Intn(5)]
	switch rng.Intn(3) {
	case 0:
		a := base.NewFloatAttribute(name)
		a.Precision = rng.Intn(16)
		return a
	case 1:
		return base.NewBinaryAttribute(name)
	}
	a := base.NewCategoricalAttribute()
	a.SetName(name)
	for i := 0; i < rng.Intn(5); i++ {
		a.GetSysValFromString([]string{"x", "y,z", "<&>", "\u00fc", "\n"}[rng.Intn(5)])
	}
	return a
}

// cell logged for a JSON value.
func asJSON(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

type inner struct {
	Name string             `json:"name"`
	N    []float64          `json:"n"`
	M    map[string]float64 `json:"m"`
}

func keyed(t *vh.T, steps []kstep) {
	p := filepath.Join(t.Dir, "keyed")
	meta := base.ClassifierMetadataV1{FormatVersion: 1, ClassifierName: fmt.Sprintf("n%d", t.Rng.Intn(9)), ClassifierVersion: "2.5",
		ClassifierMetadata: map[string]interface{}{"k": float64(t.Rng.Intn(99)) / 8, "s": "x\"y", "b": t.Rng.Intn(2) == 0}}
	w, err := base.CreateSerializedClassifierStub(p, meta)
	t.Log(vh.Ev{"e": "Create", "res": tell(vh.TryErr(func() error { return err }))})
	var readers [2]*base.ClassifierDeserializer
	open := func() {
		t.Log(vh.Ev{"e": "Close", "res": tell(vh.TryErr(w.Close))})
		for i := range readers {
			var m interface{}
			res := tell(vh.TryErr(func() error {
				var err error
				if readers[i], err = base.ReadSerializedClassifierStub(p); err != nil {
					return err
				}
				m = readers[i].Metadata
				return nil
			}))
			t.Log(vh.Ev{"e": "Open", "res": res, "meta": asJSON(m), "expect": asJSON(meta)})
			t.Note("failed", vh.LastPanic)
			if res != "ok" {
				return
			}
		}
	}
	var attrs []base.Attribute
	for _, s := range steps {
		if s.Op != "Write" && readers[1] == nil {
			open()
			if readers[1] == nil {
				return
			}
		}
		if s.Op == "End" {
			break
		}
		key := keyNames[s.Key-1]
		switch s.Op {
		case "Write":
			var val interface{}
			var f func() error
			kind := s.Kind
			switch s.Kind {
			case "bytes":
				b := make([]byte, []int{0, 1, 7, 9, 511, 512, 513, 40000}[t.Rng.Intn(8)])
				t.Rng.Read(b)
				if len(b) > 0 {
					b[0] = 0xff
				}
				val, f = vh.Hex(b), func() error { return w.WriteBytesForKey(key, b) }
			case "string":
				x := []string{"", "hello", "\u00e9\x00\n", strings.Repeat("long ", 999)}[t.Rng.Intn(4)]
				kind = "bytes"
				val, f = vh.Hex([]byte(x)), func() error { return w.WriteBytesForKey(key, []byte(x)) }
			case "gibberish":
				kind = "bytes"
				val, f = "ffffff", func() error { return w.WriteBytesForKey(key, []byte{255, 255, 255}) }
			case "u64":
				x := []uint64{0, 1, 255, 256, 1 << 32, 1<<64 - 1, t.Rng.Uint64()}[t.Rng.Intn(7)]
				val, f = fmt.Sprint(x), func() error { return w.WriteU64ForKey(key, x) }
			case "json":
				x := inner{"n\"<", []float64{t.Rng.Float64(), 1e300, -0.5}, map[string]float64{"a": t.Rng.Float64()}}
				val, f = asJSON(x), func() error { return w.WriteJSONForKey(key, x) }
			case "attr":
				a := someAttr(t.Rng)
				val, f = gridkit.ProjAttr(a, true), func() error { return w.WriteAttributeForKey(key, a) }
			case "meta":
				m := base.ClassifierMetadataV1{FormatVersion: 1 + t.Rng.Intn(3), ClassifierName: "m", ClassifierVersion: "1", ClassifierMetadata: nil}
				val, f = asJSON(m), func() error { return w.WriteMetadataAtPrefix(key, m) }
			case "attrs":
				as := []base.Attribute{}
				ps := []vh.Ev{}
				for i := []int{0, 1, 3, 12}[t.Rng.Intn(4)]; i > 0; i-- {
					as = append(as, someAttr(t.Rng))
					ps = append(ps, gridkit.ProjAttr(as[len(as)-1], true))
				}
				val, f = ps, func() error { return w.WriteAttributesForKey(key, as) }
			case "grid", "bare":
				kind = "grid"
				g := gridkit.NativeGrid(t.Rng, []int{0, 1, 5, 300}[t.Rng.Intn(4)])
				if t.Rng.Intn(3) == 0 && s.Kind == "grid" {
					g = gridkit.Reorder(t.Rng, g)
				}
				e := gridkit.Proj(g, true)
				if s.Kind == "bare" {
					e["rows"] = [][]string{}
				}
				val, f = e, func() error { return w.WriteInstancesForKey(key, g, s.Kind == "grid") }
			}
			t.Log(vh.Ev{"e": "Write", "key": written(key, kind), "kind": kind, "val": val, "res": tell(vh.TryErr(f))})
		case "Read":
			r := readers[s.Who-1]
			kind := s.Kind
			var val interface{}
			res := tell(vh.TryErr(func() error {
				switch s.Kind {
				case "bytes", "gibberish":
					kind = "bytes"
					b, err := r.GetBytesForKey(key)
					val = vh.Hex(b)
					return err
				case "string":
					kind = "bytes"
					x, err := r.GetStringForKey(key)
					val = vh.Hex([]byte(x))
					return err
				case "u64":
					x, err := r.GetU64ForKey(key)
					val = fmt.Sprint(x)
					return err
				case "json":
					var x inner
					err := r.GetJSONForKey(key, &x)
					val = asJSON(x)
					return err
				case "attr":
					a, err := r.GetAttributeForKey(key)
					if err == nil {
						val = gridkit.ProjAttr(a, true)
						attrs = append(attrs, a)
					}
					return err
				case "meta":
					m, err := r.ReadMetadataAtPrefix(key)
					val = asJSON(m)
					return err
				case "attrs":
					as, err := r.GetAttributesForKey(key)
					ps := []vh.Ev{}
					if err == nil {
						for _, a := range as {
							ps = append(ps, gridkit.ProjAttr(a, true))
						}
						attrs = append(attrs, as...)
					}
					val = ps
					return err
				}
				kind = "grid"
				g, err := r.GetInstancesForKey(key)
				if err == nil {
					val = gridkit.Proj(g, true)
					match(t, g, attrs)
				}
				return err
			}))
			if res != "ok" {
				val = "nothing"
			}
			t.Log(vh.Ev{"e": "Read", "key": written(key, kind), "kind": kind, "res": res, "val": val})
			t.Note("failed", vh.LastPanic)
		}
	}
	for _, r := range readers {
		r.Close()
	}
}

// written: where an entry really goes.
func written(key, kind string) string {
	if kind == "meta" {
		return key + "/METADATA"
	}
	return key
}

// match restored attributes with those of a grid.
func match(t *vh.T, g base.FixedDataGrid, others []base.Attribute) {
	var ps []vh.Ev
	for _, a := range g.AllAttributes() {
		ps = append(ps, plainAttr(a))
	}
	var ask []base.Attribute
	for _, a := range g.AllAttributes() { // and copies of its own
		b, err := base.SerializeAttribute(a)
		must(err)
		x, err := base.DeserializeAttribute(b)
		must(err)
		ask = append(ask, x)
	}
	if len(ask) > 6 {
		ask = ask[:6]
	}
	if len(others) > 3 {
		others = others[len(others)-3:]
	}
	one := func(a base.Attribute) {
		var m base.Attribute
		res := tell(vh.TryErr(func() error {
			var err error
			m, err = base.ReplaceDeserializedAttributeWithVersionFromInstances(a, g)
			return err
		}))
		logMatch(t, g, ps, a, m, res)
	}
	for _, a := range append(ask, others...) {
		one(a)
	}
	// all at once
	var ms []base.Attribute
	res := tell(vh.TryErr(func() error {
		var err error
		ms, err = base.ReplaceDeserializedAttributesWithVersionsFromInstances(ask, g)
		return err
	}))
	for i, a := range ask {
		var m base.Attribute
		if i < len(ms) {
			m = ms[i]
		}
		logMatch(t, g, ps, a, m, res)
	}
}

func logMatch(t *vh.T, g base.FixedDataGrid, ps []vh.Ev, a, m base.Attribute, res string) {
	e := vh.Ev{"e": "Match", "grid": ps, "attr": plainAttr(a), "res": res}
	if res == "ok" && m != nil {
		own := false
		for _, x := range g.AllAttributes() {
			own = own || x == m
		}
		e["own"], e["val"] = own, plainAttr(m)
	} else {
		e["own"], e["val"] = false, plainAttr(a)
	}
	t.Log(e)
}

func plainAttr(a base.Attribute) vh.Ev { return gridkit.ProjAttr(a, false) }

func init() {
	vh.Register("C46", func(c *vh.Ctx) {
		for i, raw := range c.Scenarios("keyed") {
			var steps []kstep
			must(json.Unmarshal(raw, &steps))
			c.Case("keyed", func(t *vh.T) { keyed(t, steps) })
			if i < 9 {
				what := []string{"lost", "invented", "changed"}[i%3]
				c.Canary(what, func(t *vh.T) { keyed(t, steps) }, func(evs []vh.Ev) []vh.Ev {
					for _, e := range evs {
						if e["e"] != "Read" {
							continue
						}
						switch {
						case what == "lost" && e["res"] == "ok":
							e["res"] = "err"
							return evs
						case what == "invented" && e["res"] == "err":
							e["res"], e["val"] = "ok", "x"
							e["kind"] = "bytes"
							return evs
						case what == "changed" && e["res"] == "ok" && e["kind"] == "u64":
							e["val"] = "77"
							return evs
						}
					}
					return append(evs, vh.Ev{"e": "Nothing"})
				})
			}
		}
	})
}
