package main

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/verifdrv/gridkit"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

// failing is a source that fails for good after n bytes.
type failing struct {
	r    *bytes.Reader
	n    int64
	left int64
}

func (f *failing) Read(p []byte) (int, error) {
	if f.left <= 0 {
		return 0, errors.New("source failed")
	}
	if int64(len(p)) > f.left {
		p = p[:f.left]
	}
	k, err := f.r.Read(p)
	f.left -= int64(k)
	if err == io.EOF {
		err = nil
	}
	return k, err
}

func (f *failing) Seek(off int64, whence int) (int64, error) {
	p, err := f.r.Seek(off, whence)
	f.left = f.n - p
	return p, err
}

func ragged(rng *rand.Rand, rows [][]string) [][]string {
	out := make([][]string, 0)
	for _, r := range rows {
		out = append(out, append([]string{}, r...))
	}
	if len(out) == 0 {
		return out
	}
	i := rng.Intn(len(out))
	switch rng.Intn(3) {
	case 0: // a field too many
		out[i] = append(out[i], []string{"1.25", "x", ""}[rng.Intn(3)])
	case 1: // a field missing
		if len(out[i]) > 1 {
			k := rng.Intn(len(out[i]))
			out[i] = append(append([]string{}, out[i][:k]...), out[i][k+1:]...)
		}
	default: // something else in a field
		out[i][rng.Intn(len(out[i]))] = []string{"oops", "1.2.3", "--1", "1,5x"}[rng.Intn(4)]
	}
	return out
}

// filled leaves out rows which come out as empty lines: those are no rows.
func filled(rows [][]string) [][]string {
	out := make([][]string, 0)
	for _, r := range rows {
		if len(r) != 1 || r[0] != "" {
			out = append(out, r)
		}
	}
	return out
}

func badCSV(rng *rand.Rand) (*doc, vh.Ev, []byte) {
	d := randDoc(rng, false, nil, nil)
	d.crlf = false
	if rng.Intn(3) > 0 {
		d.rows = ragged(rng, d.rows)
	}
	if rng.Intn(8) == 0 {
		d.rows = d.rows[:0]
	}
	split := true
	text := d.text()
	switch rng.Intn(8) {
	case 0: // a quote that is never closed
		text = append(text, []byte("\"open")...)
		if len(d.names) > 1 {
			text = append(text, []byte(",1")...)
		}
		split = false
	case 1:
		text, split = append(append([]byte("a\"b"), ','), text...), false
	case 2:
		if rng.Intn(3) == 0 {
			text, d.rows, d.names = []byte{}, nil, nil
		}
	case 3: // a line longer than any buffer
		if len(d.rows) > 0 && split {
			k := -1
			for i := range d.names {
				if len(d.rows[0]) == len(d.names) && len(d.rows) > 1 && len(d.rows[len(d.rows)-1]) == len(d.names) && !d.kinds[i] {
					k = i
				}
			}
			if k >= 0 {
				d.rows[len(d.rows)-1][k] = strings.Repeat("long", 17000+rng.Intn(3000))
				text = d.text()
			}
		}
	}
	d.rows = filled(d.rows)
	lines := gridkit.Fields(d.rows)
	names := append([]string{}, d.names...)
	return d, vh.Ev{"form": "csv", "names": names, "attrs": []vh.Ev{}, "lines": lines, "split": split}, text
}

func csvBadCase(t *vh.T) {
	rng := t.Rng
	_, file, text := badCSV(rng)
	note := string(text)
	if len(note) > 2000 {
		note = note[:2000]
	}
	t.Note("file", note)
	var g *base.DenseInstances
	p := filepath.Join(t.Dir, "in.csv")
	ioutil.WriteFile(p, text, 0600)
	defer os.Remove(p)
	ways := []func() error{
		func() (err error) { g, err = base.ParseCSVToInstancesFromReader(bytes.NewReader(text), true); return },
		func() (err error) { g, err = base.ParseCSVToInstances(p, true); return },
	}
	e := vh.Ev{"e": "Read", "file": file}
	ok := vh.TryErr(ways[rng.Intn(2)])
	e["ok"] = ok == "ok"
	if ok == "panic" {
		e["e"] = "Panic"
		t.Note("panic", vh.LastPanic)
	}
	if ok == "ok" {
		e["out"] = gridkit.Proj(g, false)
	}
	t.Log(e)
	n := 0
	ok = vh.TryErr(func() (err error) { n, err = base.ParseCSVGetRows(p); return })
	t.Log(vh.Ev{"e": "Count", "file": file, "ok": ok == "ok", "n": n, "head": 1})
	if len(text) > 1 {
		at := int64(rng.Intn(len(text)))
		ok = vh.TryErr(func() error {
			_, err := base.ParseCSVToInstancesFromReader(&failing{bytes.NewReader(text), at, at}, true)
			return err
		})
		if ok == "panic" {
			t.Log(vh.Ev{"e": "Panic"})
		}
		t.Log(vh.Ev{"e": "Fault", "ok": ok == "ok", "at": at})
	}
	t.Log(vh.Ev{"e": "Fault", "at": -1, "ok": vh.TryErr(func() error {
		_, err := base.ParseCSVToInstances(filepath.Join(t.Dir, "nothing.csv"), true)
		return err
	}) != "err"})
}

func csvTemplateCase(t *vh.T) {
	rng := t.Rng
	d := randDoc(rng, false, nil, nil)
	g, err := base.ParseCSVToInstancesFromReader(bytes.NewReader(d.text()), true)
	if err != nil {
		return
	}
	file := func(d *doc) vh.Ev {
		return vh.Ev{"form": "csv", "names": append([]string{}, d.names...), "attrs": []vh.Ev{}, "lines": gridkit.Fields(d.rows), "split": true}
	}
	t.Log(vh.Ev{"e": "Load", "file": file(d), "out": gridkit.Proj(g, false)})
	d2 := randDoc(rng, false, d.names, d.kinds)
	first := append([]string{}, d2.rows[0]...)
	d2.rows = ragged(rng, d2.rows)
	if len(d2.rows[0]) != len(first) || strings.Join(first, "\x00") != strings.Join(d2.rows[0], "\x00") {
		d2.rows = append([][]string{first}, d2.rows...) // the types are those of the template
	}
	d2.rows = filled(d2.rows)
	t.Note("file", string(d2.text()))
	var h *base.DenseInstances
	ok := vh.TryErr(func() (err error) {
		h, err = base.ParseCSVToTemplatedInstancesFromReader(bytes.NewReader(d2.text()), true, g)
		return
	})
	e := vh.Ev{"e": "Like", "file": file(d2), "ok": ok == "ok", "tmpl": gridkit.Proj(g, false)}
	if ok == "panic" {
		e["e"] = "Panic"
		t.Note("panic", vh.LastPanic)
	}
	if ok == "ok" {
		e["out"] = gridkit.Proj(h, false)
	}
	t.Log(e)
}

func arffBadCase(t *vh.T) {
	rng := t.Rng
	d := randARFF(rng)
	if len(d.rows) > 0 && rng.Intn(3) > 0 {
		d.rows = ragged(rng, d.rows)
	}
	text := d.text(rng)
	attrs := make([]vh.Ev, 0)
	attrs = append(attrs, d.attrs...)
	switch rng.Intn(8) {
	case 0: // a type nobody knows
		k := rng.Intn(len(d.attrs))
		bad := []string{"string", "date", "{x, y", "numberish"}[rng.Intn(4)]
		name := attrs[k]["name"].(string)
		var out []string
		for _, ln := range strings.Split(text, "\n") {
			f := strings.Fields(ln)
			if len(f) > 2 && strings.ToLower(f[0]) == "@attribute" && f[1] == name {
				ln = "@attribute " + name + " " + bad
			}
			out = append(out, ln)
		}
		text = strings.Join(out, "\n")
		attrs[k] = vh.Ev{"type": "bad", "name": name, "labels": []string{}}
	case 1: // no attributes at all
		if rng.Intn(3) == 0 {
			text, attrs = "@relation r\n\n@data\n", attrs[:0]
			d.rows = nil
		}
	case 2: // nothing at all
		if rng.Intn(3) == 0 {
			text, attrs, d.rows = "", attrs[:0], nil
		}
	case 3: // a line longer than any buffer, in the header and in the data
		long := strings.Repeat("long", 17000+rng.Intn(3000))
		var out []string
		name := ""
		for _, a := range attrs {
			if a["type"] == "cat" {
				name = a["name"].(string)
				a["labels"] = append([]string{long}, a["labels"].([]string)...)
				break
			}
		}
		for _, ln := range strings.Split(text, "\n") {
			f := strings.Fields(ln)
			if len(f) > 2 && strings.ToLower(f[0]) == "@attribute" && f[1] == name {
				ln = strings.Replace(ln, "{", "{"+long+",", 1)
			}
			out = append(out, ln)
		}
		text = strings.Join(out, "\n")
		if rng.Intn(2) == 0 {
			text = "% " + strings.Repeat("remark ", 12000) + "\n" + text
		}
	}
	note := text
	if len(note) > 2000 {
		note = note[:2000]
	}
	t.Note("file", note)
	file := vh.Ev{"form": "arff", "names": []string{}, "attrs": attrs, "lines": gridkit.Fields(d.rows), "split": true}
	g, ok := parseARFF(t, text)
	e := vh.Ev{"e": "Read", "file": file, "ok": ok == "ok"}
	if ok == "panic" {
		e["e"] = "Panic"
		t.Note("panic", vh.LastPanic)
	}
	if ok == "ok" {
		e["out"] = gridkit.Proj(g, false)
	}
	t.Log(e)
	p := filepath.Join(t.Dir, "count.arff")
	ioutil.WriteFile(p, []byte(text), 0600)
	defer os.Remove(p)
	n := 0
	ok = vh.TryErr(func() (err error) { n, err = base.ParseARFFGetRows(p); return })
	t.Log(vh.Ev{"e": "Count", "file": file, "ok": ok == "ok", "n": n, "head": 0})
	t.Log(vh.Ev{"e": "Fault", "at": -1, "ok": vh.TryErr(func() error {
		_, err := base.ParseDenseARFFToInstances(filepath.Join(t.Dir, "nothing.arff"))
		return err
	}) != "err"})
}

// arffFaultCase reads a sound file from a source that fails.
func arffFaultCase(t *vh.T) {
	rng := t.Rng
	d := randARFF(rng)
	for len(d.rows) == 0 {
		d = randARFF(rng)
	}
	text := d.text(rng)
	g, ok := parseARFF(t, text)
	if ok != "ok" {
		t.Log(vh.Ev{"e": "Panic"})
		return
	}
	at := int64(rng.Intn(len(text)))
	into := base.NewDenseInstances()
	attrs := base.ParseCSVGetAttributesFromReader(strings.NewReader("1\n"), false)[:0]
	for _, a := range d.attrs {
		for _, b := range g.AllAttributes() {
			if b.GetName() == a["name"] {
				attrs = append(attrs, b)
				into.AddAttribute(b)
			}
		}
	}
	into.Extend(len(d.rows))
	t.Note("file", fmt.Sprint(at, " ", text))
	ok = vh.TryErr(func() error {
		return base.ParseDenseARFFBuildInstancesFromReader(&failing{bytes.NewReader([]byte(text)), at, at}, attrs, into)
	})
	if ok == "panic" {
		t.Log(vh.Ev{"e": "Panic"})
	}
	t.Log(vh.Ev{"e": "Fault", "at": at, "ok": ok == "ok"})
}

func init() {
	vh.Register("C44", func(c *vh.Ctx) {
		for i := 0; i < c.N(500, 6000); i++ {
			c.Case("csv", csvBadCase)
		}
		for i := 0; i < c.N(150, 2000); i++ {
			c.Case("template", csvTemplateCase)
		}
		for i := 0; i < c.N(500, 6000); i++ {
			c.Case("arff", arffBadCase)
		}
		for i := 0; i < c.N(200, 2000); i++ {
			c.Case("arfffault", arffFaultCase)
		}
		for _, what := range []string{"cell", "short", "fault", "count"} {
			what := what
			c.Canary(what, func(t *vh.T) {
				rows := [][]string{{"1.25", "x"}, {"2.00", "y"}}
				var b bytes.Buffer
				w := csv.NewWriter(&b)
				w.Write([]string{"a", "b"})
				w.WriteAll(rows)
				g, err := base.ParseCSVToInstancesFromReader(bytes.NewReader(b.Bytes()), true)
				if err != nil {
					panic(err)
				}
				file := vh.Ev{"form": "csv", "names": []string{"a", "b"}, "attrs": []vh.Ev{}, "lines": gridkit.Fields(rows), "split": true}
				t.Log(vh.Ev{"e": "Read", "file": file, "ok": true, "out": gridkit.Proj(g, false)})
				t.Log(vh.Ev{"e": "Count", "file": file, "ok": true, "n": 3, "head": 1})
				t.Log(vh.Ev{"e": "Fault", "ok": false})
			}, func(evs []vh.Ev) []vh.Ev {
				switch what {
				case "cell":
					evs[0]["out"].(map[string]interface{})["rows"].([]interface{})[1].([]interface{})[0] = "3"
				case "short":
					f := evs[0]["file"].(map[string]interface{})
					ls := f["lines"].([]interface{})
					ls[1] = ls[1].([]interface{})[:1]
				case "fault":
					evs[2]["ok"] = true
				default:
					evs[1]["n"] = 2
				}
				return evs
			})
		}
	})
}
