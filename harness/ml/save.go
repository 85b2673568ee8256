package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"syscall"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

func init() {
	vh.Register("C45", func(c *vh.Ctx) {
		signal.Ignore(syscall.SIGXFSZ)
		all := append(append([]kind{}, kinds...), moreKinds...)
		for i := 0; i < c.N(4, 60); i++ {
			for j := range all {
				k := all[j]
				c.Case("model-"+k.name, func(t *vh.T) { saveModel(t, k) })
			}
		}
		for i := 0; i < c.N(40, 900); i++ {
			for j := range streamWriters {
				w := streamWriters[j]
				c.Case("stream-"+w.name, func(t *vh.T) { limitedStream(t, w) })
			}
			for j := range fileWriters {
				w := fileWriters[j]
				c.Case("file-"+w.name, func(t *vh.T) { limitedFile(t, w) })
			}
		}
		for _, what := range []string{"silent", "timid", "garbled"} {
			what := what
			c.Canary(what, func(t *vh.T) { limitedStream(t, streamWriters[0]) }, func(evs []vh.Ev) []vh.Ev {
				for _, e := range evs {
					if e["e"] != "Limited" {
						continue
					}
					switch {
					case what == "silent" && e["res"] == "err":
						e["res"] = "ok"
						return evs
					case what == "timid" && e["res"] == "ok":
						e["res"] = "err"
						return evs
					case what == "garbled" && e["res"] == "ok":
						e["same"] = false
						return evs
					}
				}
				return evs
			})
		}
	})
}

// sink accepts room bytes, then fails for good.
type sink struct {
	room int
	got  []byte
}

var errFull = errors.New("no room left")

func (s *sink) Write(p []byte) (int, error) {
	if n := s.room - len(s.got); len(p) > n {
		s.got = append(s.got, p[:n]...)
		return n, errFull
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

// textShape: the columns of text files come in any order, so there is only one besides the class.
var textShape = []shape{
	{floats: 1, classes: three},
	{cats: 1, classes: two},
	{floats: 1, floatClass: true, classes: two},
	{classes: three},
}

var anyShape = []shape{
	{floats: 3, cats: 2, classes: two},
	{floats: 1, classes: three},
	{cats: 2, classes: two},
	{floats: 2, floatClass: true, classes: two},
	{bins: 9, floats: 1, classes: two},
}

// rows that make the content from a few bytes to more than any buffer.
func someGrid(rng *rand.Rand, format string) base.FixedDataGrid {
	s := textShape[rng.Intn(len(textShape))]
	if format == "binary" {
		s = anyShape[rng.Intn(len(anyShape))]
	}
	rows := len(s.classes) + rng.Intn(40)
	if rng.Intn(3) == 0 {
		rows = 300 + rng.Intn(500)
	}
	return s.grid(rng, rows, false)
}

type streamWriter struct {
	name  string
	write func(base.FixedDataGrid, io.Writer) error
}

var streamWriters = []streamWriter{
	{"csv", base.SerializeInstancesToCSVStream},
	{"arff", func(g base.FixedDataGrid, w io.Writer) error {
		as := append(base.NonClassAttributes(g), g.AllClassAttributes()...)
		return base.SerializeInstancesToWriterDenseARFFWithAttributes(w, g, as, "rel")
	}},
	{"binary", base.SerializeInstances},
}

type fileWriter struct {
	name  string
	write func(base.FixedDataGrid, string) error
}

var fileWriters = []fileWriter{
	{"csv", base.SerializeInstancesToCSV},
	{"arff", func(g base.FixedDataGrid, p string) error { return base.SerializeInstancesToDenseARFF(g, p, "rel") }},
	{"binary", base.SerializeInstancesToFile},
}

// logLimited: the text formats are always the same, the binary one varies (order of maps).
func logLimited(t *vh.T, name string, room int, full, got []byte, res string) {
	e := vh.Ev{"e": "Limited", "room": room, "total": len(full), "got": len(got), "res": res,
		"same": bytes.Equal(got, full), "prefix": bytes.HasPrefix(full, got), "strict": true}
	if name == "binary" {
		e["strict"], e["prefix"], e["same"] = false, true, true
		if res == "ok" {
			e["total"] = len(got)
			e["same"] = whole(got) && asText(got) == asText(full)
		}
	}
	t.Log(e)
}

// asText is what a binary file says.
func asText(b []byte) string {
	out := "unreadable"
	vh.Try(func() {
		g, err := base.DeserializeInstances(bytes.NewReader(b))
		must(err)
		var buf bytes.Buffer
		as := append([]base.Attribute{}, g.AllAttributes()...)
		sort.Slice(as, func(i, j int) bool { return as[i].GetName() < as[j].GetName() })
		must(base.SerializeInstancesToWriterDenseARFFWithAttributes(&buf, g, as, "rel"))
		out = buf.String()
	})
	return out
}

// tell how a call went: "ok", "err", or "panic" (which the specification does not take).
func tell(r string) string {
	if r == "ok" || r == "err" {
		return r
	}
	return "panic"
}

func someRooms(rng *rand.Rand, total, n int) []int {
	rooms := []int{0, total - 1, total, total + 1 + rng.Intn(100)}
	for i := 0; i < n; i++ {
		r := rng.Intn(total)
		if rng.Intn(3) == 0 { // near the end
			r = total - 1 - rng.Intn(vmin(total, 40))
		}
		rooms = append(rooms, r)
	}
	return rooms
}

func vmin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func limitedStream(t *vh.T, w streamWriter) {
	g := someGrid(t.Rng, w.name)
	var full bytes.Buffer
	res := tell(vh.TryErr(func() error { return w.write(g, &full) }))
	t.Log(vh.Ev{"e": "Full", "total": full.Len(), "res": res})
	for _, room := range someRooms(t.Rng, full.Len(), 6) {
		s := &sink{room: room}
		res := tell(vh.TryErr(func() error { return w.write(g, s) }))
		logLimited(t, w.name, room, full.Bytes(), s.got, res)
		t.Note("failed", vh.LastPanic)
	}
}

// limited runs f while no file may grow beyond room bytes.
func limited(room int, f func() error) string {
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	now := old
	now.Cur = uint64(room)
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &now))
	defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	return tell(vh.TryErr(f))
}

func limitedFile(t *vh.T, w fileWriter) {
	ownTemp(t)
	before := leftovers()
	g := someGrid(t.Rng, w.name)
	p := filepath.Join(t.Dir, "full")
	res := tell(vh.TryErr(func() error { return w.write(g, p) }))
	full, err := ioutil.ReadFile(p)
	must(err)
	t.Log(vh.Ev{"e": "Full", "total": len(full), "res": res})
	for i, room := range someRooms(t.Rng, len(full), 3) {
		p := filepath.Join(t.Dir, fmt.Sprintf("part%d", i))
		if i%2 == 0 { // over something longer
			must(ioutil.WriteFile(p, append([]byte("junk"), full...), 0600))
		}
		res := limited(room, func() error { return w.write(g, p) })
		got, err := ioutil.ReadFile(p)
		must(err)
		logLimited(t, w.name, room, full, got, res)
		t.Note("failed", vh.LastPanic)
	}
	t.Log(vh.Ev{"e": "Nowhere", "res": tell(vh.TryErr(func() error { return w.write(g, filepath.Join(t.Dir, "none", "f")) }))})
	// a directory is no file
	t.Log(vh.Ev{"e": "Nowhere", "res": tell(vh.TryErr(func() error { return w.write(g, t.Dir) }))})
	t.Log(vh.Ev{"e": "Left", "files": leftovers() - before})
}

// ownTemp gives the case a directory of its own for temporary files.
func ownTemp(t *vh.T) {
	p := filepath.Join(t.Dir, "tmp")
	must(os.MkdirAll(p, 0700))
	must(os.Setenv("TMPDIR", p))
}

// leftovers counts the files in the directory for temporary files.
func leftovers() int {
	fs, err := ioutil.ReadDir(os.TempDir())
	must(err)
	n := 0
	for _, f := range fs {
		if f.Mode().IsRegular() {
			n++
		}
	}
	return n
}

// whole archive, with its end?
func whole(b []byte) bool {
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return false
	}
	content, err := ioutil.ReadAll(z)
	if err != nil {
		return false
	}
	r := tar.NewReader(bytes.NewReader(content))
	for {
		if _, err := r.Next(); err != nil {
			return err == io.EOF && len(content) >= 1024 && bytes.Equal(content[len(content)-1024:], make([]byte, 1024))
		}
	}
}

func saveModel(t *vh.T, k kind) {
	ownTemp(t)
	before := leftovers()
	train := k.shape.grid(t.Rng, len(k.shape.classes)*4+t.Rng.Intn(25), true)
	tests := []base.FixedDataGrid{train, k.shape.grid(t.Rng, 5+t.Rng.Intn(15), false)}
	ask := func(m *model) string {
		s := ""
		for _, g := range tests {
			p, err := m.predict(g)
			must(err)
			s += fmt.Sprint(labels(p))
		}
		return s
	}
	seed := t.Rng.Int63()
	m := k.make(seed)
	m.fit(train)
	want := ask(m)
	// the content varies: order of maps
	var full []byte
	for i := 0; i < 3; i++ {
		p := filepath.Join(t.Dir, fmt.Sprintf("full%d", i))
		res := tell(vh.TryErr(func() error { return m.save(p) }))
		b, err := ioutil.ReadFile(p)
		must(err)
		if i == 0 || len(b) > len(full) {
			full = b
		}
		t.Log(vh.Ev{"e": "Full", "total": len(b), "res": res})
	}
	total := len(full)
	for i, room := range []int{0, 1, total - 1, total - 4, total - 9, total - 20, t.Rng.Intn(total), t.Rng.Intn(total), 4 * total} {
		p := filepath.Join(t.Dir, fmt.Sprintf("part%d", i))
		res := limited(room, func() error { return m.save(p) })
		got, err := ioutil.ReadFile(p)
		if err != nil && !os.IsNotExist(err) {
			panic(err)
		}
		expect, same := total, true
		if res == "ok" {
			expect = len(got)
			n := k.make(seed)
			same = whole(got) && vh.TryErr(func() error {
				if err := n.load(p); err != nil {
					return err
				}
				if ask(n) != want {
					return errors.New("other predictions")
				}
				return nil
			}) == "ok"
		}
		t.Log(vh.Ev{"e": "Limited", "room": room, "total": expect, "got": len(got), "res": res, "same": same, "prefix": true, "strict": false})
		t.Note("failed", vh.LastPanic)
	}
	t.Log(vh.Ev{"e": "Nowhere", "res": tell(vh.TryErr(func() error { return m.save(filepath.Join(t.Dir, "none", "f")) }))})
	t.Log(vh.Ev{"e": "Nowhere", "res": tell(vh.TryErr(func() error { return m.save(t.Dir) }))})
	t.Log(vh.Ev{"e": "Left", "files": leftovers() - before})
}
