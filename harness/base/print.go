package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/verifdrv/gridkit"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
	"gonum.org/v1/gonum/mat"
)

// printable makes a data set whose values are told apart by their printed forms.
func printable(rng *rand.Rand) base.FixedDataGrid {
	rows := []int{0, 1, 4, 5, 6, 29, 30, 31, 1 + rng.Intn(60), 1 + rng.Intn(12)}[rng.Intn(10)]
	n := 1 + rng.Intn(6)
	switch rng.Intn(40) {
	case 0:
		rows = 257 + rng.Intn(200)
	case 1:
		n = 40 + rng.Intn(80)
	}
	if rng.Intn(6) == 0 && rows > 0 {
		x := mat.NewDense(rows, n, nil)
		for r := 0; r < rows; r++ {
			for k := 0; k < n; k++ {
				x.Set(r, k, float64(rng.Intn(200)-100)/4)
			}
		}
		m := base.InstancesFromMat64(rows, n, x)
		for i := 0; i < rng.Intn(4); i++ {
			must(m.AddClassAttribute(m.AllAttributes()[rng.Intn(n)]))
		}
		return m
	}
	d := base.NewDenseInstances()
	var as []base.Attribute
	for k := 0; k < n; k++ {
		name := []string{"a", "b c", "(x)", "é"}[rng.Intn(4)] + fmt.Sprint(k)
		switch rng.Intn(4) {
		case 0:
			as = append(as, base.NewBinaryAttribute(name))
		case 1:
			c := base.NewCategoricalAttribute()
			for j := 0; j < 1+rng.Intn(4); j++ {
				c.GetSysValFromString([]string{"yes", "no", "12", "-", "ü", "<&>"}[rng.Intn(6)])
			}
			if rng.Intn(20) == 0 {
				for j := 0; j < 300; j++ {
					c.GetSysValFromString(fmt.Sprintf("label%d", j))
				}
			}
			c.SetName(name)
			as = append(as, c)
		default:
			f := base.NewFloatAttribute(name)
			f.Precision = rng.Intn(14)
			as = append(as, f)
		}
	}
	groups := rng.Intn(3)
	for _, a := range as {
		if _, ok := a.(*base.BinaryAttribute); groups > 0 && !ok && rng.Intn(2) == 0 {
			g := fmt.Sprint("g", rng.Intn(groups))
			if d.CreateAttributeGroup(g, 8) == nil || true {
				_, err := d.AddAttributeToAttributeGroup(a, g)
				must(err)
				continue
			}
		}
		d.AddAttribute(a)
	}
	for i := 0; i < rng.Intn(4); i++ {
		must(d.AddClassAttribute(as[rng.Intn(n)]))
	}
	if rng.Intn(3) == 0 {
		d.RemoveClassAttribute(as[rng.Intn(n)])
	}
	if rows > 0 {
		d.Extend(rows)
	}
	for _, a := range as {
		sp, err := d.GetAttribute(a)
		must(err)
		for r := 0; r < rows; r++ {
			switch x := a.(type) {
			case *base.CategoricalAttribute:
				d.Set(sp, r, base.PackU64ToBytes(uint64(rng.Intn(len(x.GetValues())))))
			case *base.BinaryAttribute:
				d.Set(sp, r, []byte{byte(rng.Intn(2))})
			case *base.FloatAttribute:
				v := float64(rng.Intn(2000) - 1000)
				v /= float64(uint(1) << uint(rng.Intn(x.Precision+1)))
				if rng.Intn(10) == 0 {
					v *= 1 << 40
				}
				d.Set(sp, r, base.PackFloatToBytes(v))
			}
		}
	}
	return d
}

// summary reads a printed data set.
func summary(s string) vh.Ev {
	out := vh.Ev{"cols": -1, "rows": -1, "left": -1, "attrs": []vh.Ev{}, "shown": [][]vh.Ev{}}
	attrs, shown := make([]vh.Ev, 0), make([][]vh.Ev, 0)
	size := regexp.MustCompile(`(\d+) row\(s\) (\d+) attribute\(s\)$`)
	left := regexp.MustCompile(`^(\d+) row\(s\) undisplayed$`)
	part := ""
	for _, l := range strings.Split(s, "\n") {
		switch {
		case strings.HasPrefix(l, "Attributes:"):
			part = "attrs"
		case strings.HasPrefix(l, "Data:"):
			part = "data"
			if l = strings.TrimPrefix(l, "Data:"); strings.HasPrefix(l, "\t") {
				shown = append(shown, fields(l[1:]))
			} else if l == "All rows displayed" {
				out["left"] = 0
			} else if m := left.FindStringSubmatch(l); m != nil {
				out["left"], _ = strconv.Atoi(m[1])
			}
		case part == "attrs" && (strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "*\t")):
			attrs = append(attrs, vh.Ev{"star": l[0] == '*', "text": strings.TrimPrefix(l, "*")[1:]})
		case part == "data" && l == "\t...":
		case part == "data" && strings.HasPrefix(l, "\t"):
			shown = append(shown, fields(l[1:]))
		case part == "data" && l == "All rows displayed":
			out["left"] = 0
		default:
			if m := size.FindStringSubmatch(l); m != nil && part == "" {
				out["rows"], _ = strconv.Atoi(m[1])
				out["cols"], _ = strconv.Atoi(m[2])
			} else if m := left.FindStringSubmatch(l); m != nil {
				out["left"], _ = strconv.Atoi(m[1])
			}
		}
	}
	out["attrs"], out["shown"] = attrs, shown
	return out
}

func fields(l string) []vh.Ev {
	out := make([]vh.Ev, 0)
	for _, f := range strings.Split(strings.TrimSuffix(l, " "), " ") {
		out = append(out, gridkit.Field(f))
	}
	return out
}

func printCase(t *vh.T) {
	rng := t.Rng
	g := printable(rng)
	if rng.Intn(3) == 0 {
		g = spread(rng, g, true)
	}
	if rng.Intn(3) == 0 {
		g = gridkit.Reorder(rng, g)
		if c, ok := g.(interface {
			AddClassAttribute(base.Attribute) error
			RemoveClassAttribute(base.Attribute) error
		}); ok {
			as := g.AllAttributes()
			if rng.Intn(3) == 0 {
				must(c.AddClassAttribute(as[rng.Intn(len(as))]))
			}
			if rng.Intn(3) == 0 {
				c.RemoveClassAttribute(as[rng.Intn(len(as))])
			}
		}
	}
	t.Log(vh.Ev{"e": "Grid", "grid": gridkit.Proj(g, false)})
	t.Log(vh.Ev{"e": "Summary", "sum": summary(g.(fmt.Stringer).String())})
	if _, ok := g.(*base.Mat64Instances); ok {
		return // whose rows have no text
	}
	_, n := g.Size()
	for i := 0; i < 5 && n > 0; i++ {
		r := rng.Intn(n)
		if i == 0 {
			r = n - 1
		}
		t.Log(vh.Ev{"e": "Row", "row": r + 1, "fields": fields(g.RowString(r))})
	}
}

func init() {
	vh.Register("C48", func(c *vh.Ctx) {
		for i := 0; i < c.N(1200, 20000); i++ {
			c.Case("print", printCase)
		}
		for _, what := range []string{"star", "left", "cell", "row"} {
			what := what
			c.Canary(what, func(t *vh.T) {
				g, err := base.ParseCSVToInstancesFromReader(strings.NewReader("a,b\n"+strings.Repeat("1.25,x\n2.00,y\n", 20)), true)
				must(err)
				t.Log(vh.Ev{"e": "Grid", "grid": gridkit.Proj(g, false)})
				t.Log(vh.Ev{"e": "Summary", "sum": summary(g.String())})
				t.Log(vh.Ev{"e": "Row", "row": 2, "fields": fields(g.RowString(1))})
			}, func(evs []vh.Ev) []vh.Ev {
				s := evs[1]["sum"].(map[string]interface{})
				switch what {
				case "star":
					a := s["attrs"].([]interface{})[1].(map[string]interface{})
					a["star"] = !a["star"].(bool)
				case "left":
					s["left"] = s["left"].(float64) + 1
				case "cell":
					s["shown"].([]interface{})[1].([]interface{})[1].(map[string]interface{})["text"] = "x"
				default:
					evs[2]["row"] = 1.0
				}
				return evs
			})
		}
	})
}
