package main

import (
	"archive/tar"
	"bytes"
	"encoding/csv"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"github.com/sjwhitworth/golearn/verifdrv/gridkit"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
	"gonum.org/v1/gonum/mat"
)

type doc struct {
	header bool
	names  []string
	kinds  []bool // numeric column
	rows   [][]string
	crlf   bool
}

var csvNames = []string{"a", "b c", "weight", "x,y", "quo\"te", "é", "Z_9", "class", "0", "@at", "%pc", "A", "CLASS"}
var csvNums = []string{"1", "-2.5", "+3", ".5", "1e3", "2.50", "-0.125", "007", "1E-2", "0", "12345678", "-1", "3.14159", "1e300", "0.1", "1e+06", "-2.5E+3", ".5e-05", "+7", "00.10", "9007199254740993", "0.30000000000000004"}
var csvPlain = []string{"1.25", "-2.50", "0.75", "3", "-1", "0", "12.5", "100", "-0.25", "7.01"}
var csvLabels = []string{"x", "yes", "no", "Iris-setosa", "a b", "p,q", "say \"hi\"", "ü", "1abc", "-", "nan", "5.", "@x", "%", "two\nlines", "0x10", "TRUE", ".", "e5", "+", "1e+", "--1", "1.2.3", "1e5e5", "1,5", "Inf", "+x"}

func manyLabels(some []string) []string {
	out := append([]string{}, some...)
	for i := 0; i < 300; i++ {
		out = append(out, fmt.Sprintf("label-%d", i))
	}
	return out
}

func randDoc(rng *rand.Rand, plain bool, names []string, kinds []bool) *doc {
	d := &doc{header: true, crlf: rng.Intn(4) == 0}
	if names == nil {
		n := 1 + rng.Intn(5)
		for _, i := range rng.Perm(len(csvNames))[:n] {
			d.names = append(d.names, csvNames[i])
			d.kinds = append(d.kinds, rng.Intn(2) == 0)
		}
	} else {
		for _, i := range rng.Perm(len(names)) {
			d.names = append(d.names, names[i])
			d.kinds = append(d.kinds, kinds[i])
		}
	}
	rows := 1 + rng.Intn(9)
	labels := csvLabels
	few := 1 + rng.Intn(len(csvLabels))
	if rng.Intn(60) == 0 {
		rows = 257 + rng.Intn(150)
		labels = manyLabels(csvLabels)
		few = len(labels)
	}
	for r := 0; r < rows; r++ {
		row := make([]string, len(d.names))
		for k := range row {
			switch {
			case d.kinds[k] && plain:
				row[k] = csvPlain[rng.Intn(len(csvPlain))]
				if r == 0 {
					row[k] = "1.25"
				}
			case d.kinds[k]:
				row[k] = csvNums[rng.Intn(len(csvNums))]
			default:
				row[k] = labels[rng.Intn(few)]
				if plain && strings.ContainsAny(row[k], "@%") { // left out of the precision estimate
					row[k] = "x"
				}
				if !plain && r > 0 && rng.Intn(6) == 0 {
					row[k] = "12"
				}
			}
			if !plain && len(row) > 1 && rng.Intn(10) == 0 && (r > 0 || names != nil) {
				row[k] = ""
			}
			if row[k] != "" && !plain && rng.Intn(6) == 0 {
				row[k] = " " + row[k] + "  "
			}
		}
		d.rows = append(d.rows, row)
	}
	return d
}

func (d *doc) text() []byte {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.UseCRLF = d.crlf
	if d.header {
		h := append([]string{}, d.names...)
		for i := range h {
			if i%2 == 1 {
				h[i] = " " + h[i] + " "
			}
		}
		w.Write(h)
	}
	for _, r := range d.rows {
		w.Write(r)
	}
	w.Flush()
	return b.Bytes()
}

func (d *doc) lines() [][]vh.Ev { return gridkit.Fields(d.rows) }

func csvParseCase(t *vh.T) {
	rng := t.Rng
	d := randDoc(rng, false, nil, nil)
	if rng.Intn(4) == 0 {
		d.header = false
		for i := range d.names {
			d.names[i] = fmt.Sprint(i)
		}
	}
	if rng.Intn(6) == 0 && len(d.rows) > 1 { // something that is no number further down
		d.rows[1+rng.Intn(len(d.rows)-1)][rng.Intn(len(d.names))] = "oops"
	}
	t.Note("file", string(d.text()))
	var g *base.DenseInstances
	ok := vh.TryErr(func() error {
		var err error
		g, err = base.ParseCSVToInstancesFromReader(bytes.NewReader(d.text()), d.header)
		return err
	})
	e := vh.Ev{"e": "CSV", "names": d.names, "lines": d.lines(), "ok": ok == "ok"}
	if ok == "ok" {
		e["out"] = gridkit.Proj(g, false)
	} else if ok == "panic" {
		e["e"] = "Panic"
	}
	t.Log(e)
	if ok != "ok" || !d.header {
		return
	}
	if rng.Intn(2) == 0 {
		for i := 0; i < 1+rng.Intn(2); i++ {
			d2 := randDoc(rng, false, d.names, d.kinds)
			t.Note("file2", string(d2.text()))
			var h *base.DenseInstances
			ok := vh.TryErr(func() error {
				var err error
				h, err = base.ParseCSVToTemplatedInstancesFromReader(bytes.NewReader(d2.text()), true, g)
				if err != nil {
					t.Note("err", err.Error())
				}
				return err
			})
			e := vh.Ev{"e": "Like", "names": d2.names, "lines": d2.lines(), "ok": ok == "ok", "tmpl": gridkit.Proj(g, false)}
			if ok == "panic" {
				t.Note("panic", vh.LastPanic)
			}
			if ok == "ok" {
				e["out"] = gridkit.Proj(h, false)
			}
			t.Log(e)
			if ok != "ok" {
				return
			}
			g = h
		}
		return
	}
	ag, cg := map[string]string{}, map[string]string{}
	cls := make([]string, 0)
	for i, n := range d.names {
		if i == len(d.names)-1 {
			cg[n] = "classes"
			cls = append(cls, n)
		} else if d.kinds[i] && rng.Intn(2) == 0 {
			ag[n] = "numbers"
		}
	}
	// some columns are given attributes of the caller's own
	over := map[int]base.Attribute{}
	kinds := make([]string, len(d.names))
	for i, n := range d.names {
		kinds[i] = ""
		if rng.Intn(4) > 0 {
			continue
		}
		filled, number := true, true
		for _, r := range d.rows {
			f := gridkit.Field(r[i])
			filled = filled && f["text"] != ""
			number = number && f["isnum"] == true && !strings.HasPrefix(f["num"].(string), "-")
		}
		switch {
		case !filled:
		case number && rng.Intn(2) == 0:
			over[i], kinds[i] = base.NewBinaryAttribute(n), "bin"
			if _, ok := ag[n]; ok || rng.Intn(2) == 0 && i < len(d.names)-1 {
				ag[n] = "bits"
			}
		case number:
			over[i], kinds[i] = base.NewFloatAttribute(n), "float"
		default:
			a := base.NewCategoricalAttribute()
			a.SetName(n)
			over[i], kinds[i] = a, "cat"
			if _, ok := ag[n]; ok { // a group holds one kind of attribute
				ag[n] = "labels"
			}
		}
	}
	ok = vh.TryErr(func() error {
		var err error
		g, err = base.ParseCSVToInstancesWithAttributeGroupsFromReader(bytes.NewReader(d.text()), ag, cg, over, true)
		return err
	})
	if ok == "panic" {
		t.Note("panic", vh.LastPanic)
	}
	e = vh.Ev{"e": "Grouped", "over": kinds, "names": d.names, "lines": d.lines(), "cls": cls, "ok": ok == "ok"}
	if ok == "ok" {
		e["out"] = gridkit.Proj(g, false)
	}
	t.Log(e)
}

func csvRoundCase(t *vh.T) {
	rng := t.Rng
	d := randDoc(rng, true, nil, nil)
	t.Note("file", string(d.text()))
	g0, err := base.ParseCSVToInstancesFromReader(bytes.NewReader(d.text()), true)
	if err != nil {
		panic(err)
	}
	var g base.FixedDataGrid = g0
	t.Log(vh.Ev{"e": "CSV", "names": d.names, "lines": d.lines(), "ok": true, "out": gridkit.Proj(g, false)})
	if k := rng.Intn(6); k < 4 {
		if k > 0 {
			g = gridkit.Reorder(rng, g)
		}
		if k < 2 {
			g = spread(rng, g, false)
		}
		t.Log(vh.Ev{"e": "Load", "out": gridkit.Proj(g, false)})
	}
	for pass := 0; pass < 2; pass++ {
		var text []byte
		ok := vh.TryErr(func() error {
			if pass == 0 {
				var b bytes.Buffer
				err := base.SerializeInstancesToCSVStream(g, &b)
				text = b.Bytes()
				return err
			}
			// to a file that already holds something
			p := filepath.Join(t.Dir, "out.csv")
			ioutil.WriteFile(p, bytes.Repeat([]byte("old,old\n"), rng.Intn(60)), 0600)
			defer os.Remove(p)
			if err := base.SerializeInstancesToCSV(g, p); err != nil {
				return err
			}
			text, err = ioutil.ReadFile(p)
			return err
		})
		t.Note("written", string(text))
		recs, err := csv.NewReader(bytes.NewReader(text)).ReadAll()
		if err != nil || len(recs) == 0 {
			t.Log(vh.Ev{"e": "Write", "ok": false})
			return
		}
		t.Log(vh.Ev{"e": "Write", "ok": ok == "ok", "header": recs[0], "lines": gridkit.Fields(recs[1:])})
		h, err := base.ParseCSVToInstancesFromReader(bytes.NewReader(text), true)
		e := vh.Ev{"e": "Reread", "ok": err == nil, "cls": true}
		if err == nil {
			e["out"] = gridkit.Proj(h, false)
		}
		t.Log(e)
	}
}

// ---- ARFF ----

var arffNames = []string{"a", "weight", "x-y", "é", "Z_9", "class", "Temp", "r#1"}
var arffLabels = []string{"x", "yes", "no", "Iris-setosa", "TRUE", "1", "2.5", "ü", "<=3", "a_b", "-", "@at", "5%", "a%b", "5'", "don't"}

type arffDoc struct {
	attrs []vh.Ev
	rows  [][]string
	plain bool
}

// atFirst tells whether a data line starts with an @.
func (d *arffDoc) atFirst() bool {
	for _, r := range d.rows {
		if strings.HasPrefix(r[0], "@") {
			return true
		}
	}
	return false
}

func randARFF(rng *rand.Rand) *arffDoc {
	d := &arffDoc{}
	n := 1 + rng.Intn(5)
	rows, pool, most := rng.Intn(8), arffLabels, 5
	if rng.Intn(60) == 0 {
		rows, pool, most = 257+rng.Intn(150), manyLabels(arffLabels), 300
	}
	for _, i := range rng.Perm(len(arffNames))[:n] {
		if rng.Intn(2) == 0 {
			d.attrs = append(d.attrs, vh.Ev{"type": "float", "name": arffNames[i], "labels": []string{}})
			continue
		}
		var ls []string
		for _, j := range rng.Perm(len(pool))[:1+rng.Intn(most)] {
			ls = append(ls, pool[j])
		}
		d.attrs = append(d.attrs, vh.Ev{"type": "cat", "name": arffNames[i], "labels": ls})
	}
	for r := 0; r < rows; r++ {
		var row []string
		for _, a := range d.attrs {
			if a["type"] == "float" {
				v := csvPlain[rng.Intn(len(csvPlain))]
				if r == 0 {
					v = "1.25"
				}
				row = append(row, v)
			} else {
				ls := a["labels"].([]string)
				row = append(row, ls[rng.Intn(len(ls))])
			}
		}
		d.rows = append(d.rows, row)
	}
	return d
}

// text renders the document in one of the layouts ARFF allows.
func (d *arffDoc) text(rng *rand.Rand) string {
	var b strings.Builder
	pick := func(s ...string) string { return s[rng.Intn(len(s))] }
	if rng.Intn(2) == 0 {
		b.WriteString("% a comment, {with} @attribute in it\n\n")
	}
	b.WriteString(pick("@relation r\n\n", "@RELATION r\n"))
	kw := pick("@attribute", "@ATTRIBUTE", "@Attribute")
	for _, a := range d.attrs {
		sep := pick(" ", "\t", "   ")
		if a["type"] == "float" {
			fmt.Fprintf(&b, "%s%s%s%s%s\n", kw, sep, a["name"], sep, pick("real", "REAL", "Real"))
			continue
		}
		ls := a["labels"].([]string)
		var list string
		switch rng.Intn(5) {
		case 0:
			list = "{" + strings.Join(ls, ",") + "}"
		case 1:
			list = "{" + strings.Join(ls, ", ") + "}"
		case 2:
			list = "{ " + strings.Join(ls, ", ") + " }"
		case 3:
			list = "{" + strings.Join(ls, " , ") + "}"
		default:
			list = "{"
			for i, l := range ls {
				if i > 0 {
					list += pick(",", ", ")
				}
				list += l
			}
			list += "}"
		}
		fmt.Fprintf(&b, "%s%s%s%s%s\n", kw, sep, a["name"], sep, list)
	}
	b.WriteString(pick("\n@data\n", "@DATA\n", "@data \n"))
	for _, r := range d.rows {
		b.WriteString(strings.Join(r, pick(",", ", ")))
		b.WriteString("\n")
		if rng.Intn(5) == 0 {
			b.WriteString(pick("% remark\n", "\n"))
		}
	}
	return b.String()
}

func parseARFF(t *vh.T, text string) (*base.DenseInstances, string) {
	p := filepath.Join(t.Dir, "in.arff")
	if err := ioutil.WriteFile(p, []byte(text), 0600); err != nil {
		panic(err)
	}
	defer os.Remove(p)
	var g *base.DenseInstances
	res := vh.TryErr(func() error {
		var err error
		g, err = base.ParseDenseARFFToInstances(p)
		return err
	})
	return g, res
}

func arffParseCase(t *vh.T) {
	rng := t.Rng
	d := randARFF(rng)
	if len(d.rows) > 0 && rng.Intn(6) == 0 {
		d.rows[rng.Intn(len(d.rows))][rng.Intn(len(d.attrs))] = "oops"
	}
	text := d.text(rng)
	t.Note("file", text)
	g, ok := parseARFF(t, text)
	e := vh.Ev{"e": "ARFF", "attrs": d.attrs, "lines": gridkit.Fields(d.rows), "ok": ok == "ok", "inorder": false}
	if ok == "panic" {
		e["e"] = "Panic"
		t.Note("panic", vh.LastPanic)
	}
	if ok == "ok" {
		e["out"] = gridkit.Proj(g, false)
		types := map[interface{}]bool{}
		for _, a := range d.attrs {
			types[a["type"]] = true
		}
		e["inorder"] = len(types) == 1
	}
	t.Log(e)
}

func arffRoundCase(t *vh.T) {
	rng := t.Rng
	var d *arffDoc
	for d == nil || len(d.rows) == 0 || d.atFirst() { // such lines are left out of the precision estimate
		d = randARFF(rng)
	}
	g0, ok := parseARFF(t, d.text(rng))
	if ok != "ok" {
		t.Log(vh.Ev{"e": "Panic"})
		return
	}
	var g base.FixedDataGrid = g0
	if k := rng.Intn(6); k < 4 {
		if k > 0 {
			g = gridkit.Reorder(rng, g)
		}
		if k < 2 {
			g = spread(rng, g, false)
		}
	}
	t.Log(vh.Ev{"e": "Load", "out": gridkit.Proj(g, false)})
	p := filepath.Join(t.Dir, "out.arff")
	ioutil.WriteFile(p, bytes.Repeat([]byte("1,2,old\n"), rng.Intn(80)), 0600)
	defer os.Remove(p)
	res := vh.TryErr(func() error { return base.SerializeInstancesToDenseARFF(g, p, "rel") })
	text, _ := ioutil.ReadFile(p)
	t.Note("written", string(text))
	h, ok := parseARFF(t, string(text))
	e := vh.Ev{"e": "Again", "ok": res == "ok" && ok == "ok"}
	if ok == "ok" {
		e["out"] = gridkit.Proj(h, false)
	}
	t.Log(e)
	var b bytes.Buffer
	err := base.SerializeInstancesToWriterDenseARFFWithAttributes(&b, g, g.AllAttributes(), "rel")
	h, ok = parseARFF(t, b.String())
	e = vh.Ev{"e": "Reread", "ok": err == nil && ok == "ok", "cls": false}
	if ok == "ok" {
		e["out"] = gridkit.Proj(h, false)
	}
	t.Log(e)
}

// ---- native container ----

func nativeRound(t *vh.T, g base.FixedDataGrid, viaFile bool) (base.FixedDataGrid, string) {
	var data []byte
	res := vh.TryErr(func() error {
		if !viaFile {
			var b bytes.Buffer
			err := base.SerializeInstances(g, &b)
			data = b.Bytes()
			return err
		}
		p := filepath.Join(t.Dir, "inst.tar.gz")
		ioutil.WriteFile(p, bytes.Repeat([]byte("old content "), t.Rng.Intn(400)), 0600)
		defer os.Remove(p)
		if err := base.SerializeInstancesToFile(g, p); err != nil {
			return err
		}
		var err error
		data, err = ioutil.ReadFile(p)
		return err
	})
	if res != "ok" {
		t.Note("write", res+" "+vh.LastPanic)
		return nil, res
	}
	var h base.FixedDataGrid
	res = vh.TryErr(func() error {
		x, err := base.DeserializeInstances(bytes.NewReader(data))
		h = x
		return err
	})
	if res != "ok" {
		t.Note("read", res+" "+vh.LastPanic)
	}
	return h, res
}

// tarRound puts the structure of a grid and the whole of it into one archive, in either order, and takes both out.
func tarRound(g base.FixedDataGrid, first bool) (structure, all base.FixedDataGrid, res string) {
	res = vh.TryErr(func() error {
		var b bytes.Buffer
		tw := tar.NewWriter(&b)
		for i := 0; i < 2; i++ {
			whole := (i == 0) == first
			if err := base.SerializeInstancesToTarWriter(g, tw, map[bool]string{true: "whole/", false: ""}[whole], whole); err != nil {
				return err
			}
		}
		if err := tw.Close(); err != nil {
			return err
		}
		tr := base.NewFunctionalTarReader(func() *tar.Reader { return tar.NewReader(bytes.NewReader(b.Bytes())) })
		x, err := base.DeserializeInstancesFromTarReader(tr, "")
		if err != nil {
			return err
		}
		y, err := base.DeserializeInstancesFromTarReader(tr, "whole/")
		structure, all = x, y
		return err
	})
	return
}

// otherKind is a grid that keeps no cells of its own in rows: a filtered one or a matrix.
func otherKind(rng *rand.Rand, g base.FixedDataGrid) base.FixedDataGrid {
	if rng.Intn(2) == 0 {
		r, k := 1+rng.Intn(5), 1+rng.Intn(4)
		m := mat.NewDense(r, k, nil)
		for i := 0; i < r; i++ {
			for j := 0; j < k; j++ {
				m.Set(i, j, float64(rng.Intn(100)-50)/4)
			}
		}
		return base.InstancesFromMat64(r, k, m)
	}
	f := filters.NewBinaryConvertFilter()
	for _, a := range g.AllAttributes() {
		if _, ok := a.(*base.FloatAttribute); ok && rng.Intn(2) == 0 {
			must(f.AddAttribute(a))
		}
	}
	must(f.Train())
	return base.NewLazilyFilteredInstances(g, f)
}

// spread puts filters over a grid that turn attributes with labels into one number (or bit) for each
// label, so that the filtered grid has other, and often more, attributes than its source; and
// sometimes a view over that.
func spread(rng *rand.Rand, g base.FixedDataGrid, bits bool) base.FixedDataGrid {
	type filter interface {
		base.Filter
		AddAttribute(base.Attribute) error
	}
	var f filter = filters.NewFloatConvertFilter()
	if bits && rng.Intn(2) == 0 {
		f = filters.NewBinaryConvertFilter()
	}
	for _, a := range base.NonClassAttributes(g) {
		if c, ok := a.(*base.CategoricalAttribute); ok && len(c.GetValues()) > 0 && len(c.GetValues()) < 20 && rng.Intn(4) > 0 {
			must(f.AddAttribute(a))
		}
	}
	must(f.Train())
	var out base.FixedDataGrid = base.NewLazilyFilteredInstances(g, f)
	if rng.Intn(3) == 0 {
		out = gridkit.Reorder(rng, out)
	}
	return out
}

func init() {
	vh.Register("C09", func(c *vh.Ctx) {
		for i := 0; i < c.N(500, 8000); i++ {
			c.Case("parse", csvParseCase)
		}
		for i := 0; i < c.N(300, 5000); i++ {
			c.Case("write", csvRoundCase)
		}
		for _, what := range []string{"cell", "label", "type", "cls", "write"} {
			what := what
			c.Canary(what, func(t *vh.T) {
				text := "a,b\n1.25,x\n2.00,y\n"
				g, err := base.ParseCSVToInstancesFromReader(strings.NewReader(text), true)
				if err != nil {
					panic(err)
				}
				rows := [][]string{{"1.25", "x"}, {"2.00", "y"}}
				t.Log(vh.Ev{"e": "CSV", "names": []string{"a", "b"}, "lines": gridkit.Fields(rows), "ok": true, "out": gridkit.Proj(g, false)})
				t.Log(vh.Ev{"e": "Write", "ok": true, "header": []string{"a", "b"}, "lines": gridkit.Fields(rows)})
			}, func(evs []vh.Ev) []vh.Ev {
				o := evs[0]["out"].(map[string]interface{})
				switch what {
				case "cell":
					o["rows"].([]interface{})[1].([]interface{})[0] = "3"
				case "label":
					o["attrs"].([]interface{})[1].(map[string]interface{})["labels"] = []string{"y", "x"}
				case "type":
					o["attrs"].([]interface{})[0].(map[string]interface{})["type"] = "cat"
				case "cls":
					o["cls"] = []string{"a"}
				default:
					evs[1]["lines"] = gridkit.Fields([][]string{{"1.25", "x"}, {"2.00", "x"}})
				}
				return evs
			})
		}
	})
	vh.Register("C10", func(c *vh.Ctx) {
		for i := 0; i < c.N(500, 8000); i++ {
			c.Case("parse", arffParseCase)
		}
		for i := 0; i < c.N(300, 5000); i++ {
			c.Case("write", arffRoundCase)
		}
		for _, what := range []string{"order", "cell"} {
			what := what
			c.Canary(what, func(t *vh.T) {
				g, ok := parseARFF(t, "@relation r\n@attribute a real\n@attribute b {x,y}\n@data\n1,y\n2,x\n")
				if ok != "ok" {
					panic(ok)
				}
				as := []vh.Ev{{"type": "float", "name": "a", "labels": []string{}}, {"type": "cat", "name": "b", "labels": []string{"x", "y"}}}
				t.Log(vh.Ev{"e": "ARFF", "attrs": as, "lines": gridkit.Fields([][]string{{"1", "y"}, {"2", "x"}}), "ok": true, "inorder": false, "out": gridkit.Proj(g, false)})
			}, func(evs []vh.Ev) []vh.Ev {
				o := evs[0]["out"].(map[string]interface{})
				if what == "order" {
					o["attrs"].([]interface{})[1].(map[string]interface{})["labels"] = []string{"y", "x"}
				} else {
					o["rows"].([]interface{})[1].([]interface{})[1] = "c1"
				}
				return evs
			})
		}
	})
	vh.Register("C11", func(c *vh.Ctx) {
		for i := 0; i < c.N(500, 8000); i++ {
			i := i
			c.Case("grid", func(t *vh.T) {
				g := gridkit.NativeGrid(t.Rng, t.Rng.Intn(8))
				switch t.Rng.Intn(6) {
				case 0, 1:
					g = gridkit.Reorder(t.Rng, g)
				case 2:
					g = otherKind(t.Rng, g)
				case 3:
					g = spread(t.Rng, g, true)
				}
				t.Log(vh.Ev{"e": "Load", "out": gridkit.Proj(g, true)})
				h, res := nativeRound(t, g, i%3 == 0)
				e := vh.Ev{"e": "Again", "ok": res == "ok"}
				if res == "ok" {
					e["out"] = gridkit.Proj(h, true)
				}
				t.Log(e)
			})
		}
		for i := 0; i < c.N(80, 1000); i++ {
			c.Case("structure", func(t *vh.T) {
				g := gridkit.NativeGrid(t.Rng, t.Rng.Intn(8))
				if t.Rng.Intn(3) == 0 {
					g = gridkit.Reorder(t.Rng, g)
				}
				t.Log(vh.Ev{"e": "Load", "out": gridkit.Proj(g, true)})
				h, f, res := tarRound(g, t.Rng.Intn(2) == 0)
				e := vh.Ev{"e": "Structure", "ok": res == "ok"}
				if res == "ok" {
					e["out"], e["all"] = gridkit.Proj(h, true), gridkit.Proj(f, true)
				}
				t.Log(e)
			})
		}
		for i := 0; i < c.N(24, 150); i++ {
			c.Case("bulk", func(t *vh.T) {
				g := gridkit.NativeGrid(t.Rng, 300+t.Rng.Intn(3000))
				var names []string
				for _, a := range g.AllAttributes() {
					names = append(names, a.GetName())
				}
				_, n := g.Size()
				h, res := nativeRound(t, g, false)
				e := vh.Ev{"e": "Bulk", "ok": res == "ok", "n": n, "before": gridkit.BulkRows(g, names)}
				if res == "ok" {
					e["after"] = gridkit.BulkRows(h, names)
				}
				t.Log(e)
			})
		}
		for _, what := range []string{"cell", "prec", "cls", "rows"} {
			what := what
			c.Canary(what, func(t *vh.T) {
				d := base.NewDenseInstances()
				f := base.NewFloatAttribute("a")
				s := d.AddAttribute(f)
				d.AddClassAttribute(f)
				d.Extend(2)
				d.Set(s, 1, base.PackFloatToBytes(2))
				t.Log(vh.Ev{"e": "Load", "out": gridkit.Proj(d, true)})
				h, _ := nativeRound(t, d, false)
				t.Log(vh.Ev{"e": "Again", "ok": true, "out": gridkit.Proj(h, true)})
			}, func(evs []vh.Ev) []vh.Ev {
				o := evs[1]["out"].(map[string]interface{})
				switch what {
				case "cell":
					o["rows"].([]interface{})[1].([]interface{})[0] = "0000000000000000"
				case "prec":
					o["attrs"].([]interface{})[0].(map[string]interface{})["prec"] = 3
				case "cls":
					o["cls"] = []string{}
				default:
					o["rows"] = o["rows"].([]interface{})[:1]
				}
				return evs
			})
		}
	})
}
