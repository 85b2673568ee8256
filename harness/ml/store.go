package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"io/ioutil"
	"os"
	"path/filepath"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/verifdrv/gridkit"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// sweep loads many variants of a file and logs them as one event.
type sweep struct {
	outs []interface{}
	seen map[string]int
	res  []int
}

func (s *sweep) add(ok string, out interface{}) {
	if ok == "err" {
		s.res = append(s.res, 0)
		return
	}
	if ok == "panic" {
		s.res = append(s.res, -1)
		return
	}
	b, _ := json.Marshal(out)
	if s.seen == nil {
		s.seen = map[string]int{}
	}
	k, have := s.seen[string(b)]
	if !have {
		s.outs = append(s.outs, out)
		k = len(s.outs)
		s.seen[string(b)] = k
	}
	s.res = append(s.res, k)
}

func (s *sweep) log(t *vh.T, what string) {
	if s.outs == nil {
		s.outs = []interface{}{}
	}
	if s.res == nil {
		s.res = []int{}
	}
	t.Log(vh.Ev{"e": "Loads", "what": what, "outs": s.outs, "res": s.res})
}

// container packs entries the way both file formats do.
func container(entries ...[2]string) []byte {
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	w := tar.NewWriter(z)
	for _, e := range entries {
		must(w.WriteHeader(&tar.Header{Name: e[0], Size: int64(len(e[1]))}))
		w.Write([]byte(e[1]))
	}
	w.Close()
	z.Close()
	return b.Bytes()
}

// unpack lists the entries of a container.
func unpack(data []byte) [][2]string {
	z, err := gzip.NewReader(bytes.NewReader(data))
	must(err)
	r := tar.NewReader(z)
	var out [][2]string
	for {
		h, err := r.Next()
		if err != nil {
			return out
		}
		b, err := ioutil.ReadAll(r)
		must(err)
		out = append(out, [2]string{h.Name, string(b)})
	}
}

func gzipped(text string) []byte {
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	z.Write([]byte(text))
	z.Close()
	return b.Bytes()
}

// damages runs every variant of a file through load. all: every truncation and every bit.
func damages(t *vh.T, data []byte, all bool, load func([]byte) (string, interface{}), foreign [][]byte) {
	s := &sweep{}
	s.add(load(data))
	s.log(t, "intact")
	t.Log(vh.Ev{"e": "Damage"})
	s = &sweep{}
	var bad []int
	for n := 0; n < len(data); n++ {
		if all || n > len(data)-30 || t.Rng.Intn(len(data)) < 60 {
			s.add(load(data[:n]))
			if s.res[len(s.res)-1] != 0 {
				bad = append(bad, n)
			}
		}
	}
	s.log(t, "truncated")
	if len(bad) > 0 {
		t.Note("truncations", bad)
	}
	s = &sweep{}
	for i := 0; i < len(data)*8; i++ {
		if all || t.Rng.Intn(len(data)*8) < 150 {
			x := append([]byte{}, data...)
			x[i/8] ^= 1 << uint(i%8)
			s.add(load(x))
		}
	}
	s.log(t, "flipped")
	s = &sweep{}
	for i := 0; i < 30; i++ {
		x := append([]byte{}, data...)
		switch t.Rng.Intn(4) {
		case 0: // a block overwritten
			a := t.Rng.Intn(len(x))
			for k := a; k < len(x) && k < a+1+t.Rng.Intn(64); k++ {
				x[k] = byte(t.Rng.Intn(256))
			}
		case 1: // something appended
			y := make([]byte, 1+t.Rng.Intn(600))
			if t.Rng.Intn(2) == 0 {
				t.Rng.Read(y)
			}
			x = append(x, y...)
		case 2: // a block missing
			a := t.Rng.Intn(len(x))
			b := a + t.Rng.Intn(len(x)-a+1)
			x = append(x[:a:a], x[b:]...)
		default: // a block zeroed
			a := t.Rng.Intn(len(x))
			for k := a; k < len(x) && k < a+1+t.Rng.Intn(64); k++ {
				x[k] = 0
			}
		}
		s.add(load(x))
	}
	s.log(t, "mangled")
	s = &sweep{}
	var which []string
	for _, g := range gutted(data) {
		s.add(load(g.data))
		if s.res[len(s.res)-1] < 0 {
			which = append(which, g.what)
		}
	}
	s.log(t, "gutted")
	t.Note("gutted", which)
	t.Log(vh.Ev{"e": "Replace"})
	s = &sweep{}
	for _, f := range foreign {
		s.add(load(f))
	}
	s.log(t, "foreign")
}

func foreigns(t *vh.T) [][]byte {
	rnd := make([]byte, 1+t.Rng.Intn(900))
	t.Rng.Read(rnd)
	return [][]byte{{}, []byte("hello, world\n"), []byte("a,b\n1,2\n"), rnd, append([]byte{0x1f, 0x8b, 8, 0}, rnd...), gzipped(""), gzipped("a,b\n1,2\n"), gzipped(string(rnd)),
		container(), container([2]string{"readme", "hi"}), container([2]string{"MANIFEST", "golearn 0.9"}), container([2]string{"CLS_MANIFEST", "golearn 0.9"}),
		container([2]string{"MANIFEST", "golearn 1.0"}), container([2]string{"CLS_MANIFEST", "golearn 1.0"}), container([2]string{"CLS_MANIFEST", "golearn 1.0"}, [2]string{"METADATA", "{}"}),
		container([2]string{"CLS_MANIFEST", "golearn 1.0"}, [2]string{"METADATA", "{\"format_version\":1}"}), container([2]string{"CLS_MANIFEST", "golearn 1.0"}, [2]string{"METADATA", "nonsense"})}
}

func loadGrid(data []byte) (string, interface{}) {
	var g *base.DenseInstances
	res := vh.TryErr(func() error {
		var err error
		g, err = base.DeserializeInstances(bytes.NewReader(data))
		return err
	})
	if res != "ok" {
		return res, nil
	}
	return res, gridkit.Proj(g, true)
}

// inconsistent containers: well-formed files whose parts contradict each other.
func inconsistent(t *vh.T, data []byte) [][]byte {
	var out [][]byte
	with := func(name string, f func(string) string) {
		es := unpack(data)
		for i := range es {
			if es[i][0] == name {
				es[i][1] = f(es[i][1])
			}
		}
		out = append(out, container(es...))
	}
	es := unpack(data)
	for i := range es {
		if es[i][0] == "DATA" && es[i][1] == "" {
			continue
		}
		out = append(out, container(append(append([][2]string{}, es[:i]...), es[i+1:]...)...))
	}
	dims := func(a, r uint64) func(string) string {
		return func(string) string { return string(base.PackU64ToBytes(a)) + string(base.PackU64ToBytes(r)) }
	}
	var na, nr uint64
	for _, e := range es {
		if e[0] == "DIMS" {
			na, nr = base.UnpackBytesToU64([]byte(e[1])[:8]), base.UnpackBytesToU64([]byte(e[1])[8:])
		}
	}
	with("DIMS", func(string) string { return "" })
	with("DIMS", dims(na+1, nr))
	with("DIMS", dims(na-1, nr))
	with("DIMS", dims(1<<40, nr))
	with("DIMS", dims(na, nr+1))
	with("DIMS", dims(na, 1<<60))
	with("DIMS", dims(na, 1<<63))
	if nr > 0 {
		with("DIMS", dims(na, nr-1))
		with("DATA", func(s string) string { return s[:len(s)-1] })
	}
	with("DATA", func(s string) string { return s + "x" })
	with("ATTRS", func(string) string { return "not json" })
	with("ATTRS", func(string) string { return "[{\"type\":\"complex\",\"name\":\"z\",\"attr\":{}}]" })
	with("ATTRS", func(string) string { return "[null]" })
	with("ATTRS", func(string) string { return "[{\"type\":\"float\",\"name\":\"z\"}]" })
	with("ATTRS", func(string) string { return "[{\"type\":\"float\",\"name\":\"z\",\"attr\":{\"precision\":\"two\"}}]" })
	with("ATTRS", func(string) string { return "[{\"type\":\"categorical\",\"name\":\"z\",\"attr\":{\"values\":[1,2]}}]" })
	with("CATTRS", func(string) string { return "{}" })
	with("MANIFEST", func(string) string { return "golearn 2.0" })
	return out
}

func loadModel(t *vh.T, k kind, seed int64, test base.FixedDataGrid) func([]byte) (string, interface{}) {
	return func(data []byte) (string, interface{}) {
		p := filepath.Join(t.Dir, "model.in")
		must(ioutil.WriteFile(p, data, 0600))
		defer os.Remove(p)
		m := k.make(seed)
		res := vh.TryErr(func() error { return m.load(p) })
		if res != "ok" {
			return res, nil
		}
		var out interface{}
		res = vh.TryErr(func() error {
			pr, err := m.predict(test)
			if err == nil {
				out = labels(pr)
			}
			return err
		})
		if res != "ok" { // loaded, but of no use
			return "panic", nil
		}
		return res, out
	}
}

// trained fits a model of kind k and saves it.
func trained(t *vh.T, k kind, seed int64, train, test base.FixedDataGrid) ([]byte, []string, *model) {
	m := k.make(seed)
	m.fit(train)
	before, err := m.predict(test)
	must(err)
	p := filepath.Join(t.Dir, "model.out")
	defer os.Remove(p)
	must(m.save(p))
	data, err := ioutil.ReadFile(p)
	must(err)
	return data, labels(before), m
}

func init() {
	vh.Register("C12", func(c *vh.Ctx) {
		for i := 0; i < c.N(16, 60); i++ {
			c.Case("grid", func(t *vh.T) {
				g := gridkit.NativeGrid(t.Rng, t.Rng.Intn(6))
				var b bytes.Buffer
				err := base.SerializeInstances(g, &b)
				t.Log(vh.Ev{"e": "Save", "ok": err == nil, "kind": "grid", "content": gridkit.Proj(g, true)})
				f := append(foreigns(t), inconsistent(t, b.Bytes())...)
				t.Note("foreign", len(foreigns(t)))
				damages(t, b.Bytes(), true, loadGrid, f)
			})
		}
		for i := 0; i < c.N(4, 30); i++ {
			c.Case("big-grid", func(t *vh.T) {
				g := gridkit.NativeGrid(t.Rng, 500+t.Rng.Intn(500))
				var b bytes.Buffer
				err := base.SerializeInstances(g, &b)
				t.Log(vh.Ev{"e": "Save", "ok": err == nil, "kind": "grid", "content": gridkit.Proj(g, true)})
				damages(t, b.Bytes(), false, loadGrid, nil)
			})
		}
		for i := 0; i < c.N(2, 20); i++ {
			for j := range kinds {
				k := kinds[j]
				c.Case("model-"+k.name, func(t *vh.T) {
					seed := t.Rng.Int63()
					train, test := k.shape.grid(t.Rng, 24, true), k.shape.grid(t.Rng, 8, true)
					data, want, _ := trained(t, k, seed, train, test)
					t.Log(vh.Ev{"e": "Save", "ok": true, "kind": "model", "content": want})
					f := foreigns(t)
					var b bytes.Buffer
					must(base.SerializeInstances(train, &b))
					f = append(f, b.Bytes())
					// models of other kinds
					for _, o := range kinds {
						if family(o.name) != family(k.name) {
							d, _, _ := trained(t, o, seed, o.shape.grid(t.Rng, 12, true), o.shape.grid(t.Rng, 2, true))
							f = append(f, d)
						}
					}
					damages(t, data, false, loadModel(t, k, seed, test), f)
				})
			}
		}
		for _, what := range []string{"misread", "crash", "lost"} {
			what := what
			c.Canary(what, func(t *vh.T) {
				g := gridkit.NativeGrid(t.Rng, 3)
				var b bytes.Buffer
				must(base.SerializeInstances(g, &b))
				t.Log(vh.Ev{"e": "Save", "ok": true, "kind": "grid", "content": gridkit.Proj(g, true)})
				s := &sweep{}
				s.add(loadGrid(b.Bytes()))
				s.log(t, "intact")
				t.Log(vh.Ev{"e": "Damage"})
				s = &sweep{}
				s.add("err", nil)
				s.add(loadGrid(b.Bytes()))
				s.log(t, "damaged")
			}, func(evs []vh.Ev) []vh.Ev {
				switch what {
				case "misread":
					o := evs[3]["outs"].([]interface{})[0].(map[string]interface{})
					o["rows"] = o["rows"].([]interface{})[1:]
				case "crash":
					evs[3]["res"] = []int{-1}
				default:
					evs[1]["res"] = []int{0}
				}
				return evs
			})
		}
	})
}

// gutted: containers in which one entry is missing or holds something else.
func gutted(data []byte) []struct {
	what string
	data []byte
} {
	var out []struct {
		what string
		data []byte
	}
	add := func(what string, x [][2]string) {
		out = append(out, struct {
			what string
			data []byte
		}{what, container(x...)})
	}
	es := unpack(data)
	for i := range es {
		add("without "+es[i][0], append(append([][2]string{}, es[:i]...), es[i+1:]...))
		for _, s := range []string{"", "gibberish"} {
			x := append([][2]string{}, es...)
			if x[i][1] == "" {
				continue
			}
			x[i][1] = s
			add(es[i][0]+"="+s, x)
		}
	}
	return out
}

// family: models which share a file format.
func family(name string) string {
	if name == "random-tree" {
		return "id3"
	}
	return name[:3]
}
