// Package gridkit projects data grids to specification values and makes random grids.
package gridkit

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

func Canon(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

// Field of a text file as the specification sees it.
func Field(text string) vh.Ev {
	text = strings.TrimSpace(text)
	f, err := strconv.ParseFloat(text, 64)
	if err != nil || !plainNumber(text) {
		return vh.Ev{"text": text, "num": "", "isnum": false}
	}
	return vh.Ev{"text": text, "num": Canon(f), "isnum": true}
}

// plainNumber: digits, sign, point, exponent, ending in a digit.
func plainNumber(s string) bool {
	if s == "" || s[len(s)-1] < '0' || s[len(s)-1] > '9' {
		return false
	}
	for _, r := range s {
		if !strings.ContainsRune("0123456789.+-eE", r) {
			return false
		}
	}
	return true
}

func Fields(rows [][]string) [][]vh.Ev {
	out := make([][]vh.Ev, len(rows))
	for r := range rows {
		out[r] = make([]vh.Ev, 0)
		for _, x := range rows[r] {
			out[r] = append(out[r], Field(x))
		}
	}
	return out
}

// ProjAttr describes an attribute; withPrec also its declared precision.
func ProjAttr(a base.Attribute, withPrec bool) vh.Ev {
	e := vh.Ev{"name": a.GetName(), "labels": []string{}}
	switch x := a.(type) {
	case *base.CategoricalAttribute:
		e["type"] = "cat"
		e["labels"] = append([]string{}, x.GetValues()...)
	case *base.FloatAttribute:
		e["type"] = "float"
		if withPrec {
			e["prec"] = x.Precision
		}
	case *base.BinaryAttribute:
		e["type"] = "bin"
	default:
		e["type"] = "?"
	}
	return e
}

// Proj projects a grid; bits records numbers by bit pattern instead of value.
func Proj(g base.FixedDataGrid, bits bool) vh.Ev {
	as := make([]vh.Ev, 0)
	_, n := g.Size()
	rows := make([][]string, n)
	for _, a := range g.AllAttributes() {
		as = append(as, ProjAttr(a, bits))
		sp, err := g.GetAttribute(a)
		for r := range rows {
			c := "?"
			if err == nil {
				b := g.Get(sp, r)
				switch a.(type) {
				case *base.CategoricalAttribute:
					c = fmt.Sprintf("c%d", base.UnpackBytesToU64(b))
				case *base.BinaryAttribute:
					c = fmt.Sprint(b[0])
				default:
					if bits {
						c = vh.Hex(b)
					} else {
						c = Canon(base.UnpackBytesToFloat(b))
					}
				}
			}
			rows[r] = append(rows[r], c)
		}
	}
	for r := range rows {
		if rows[r] == nil {
			rows[r] = []string{}
		}
	}
	cls := make([]string, 0)
	for _, a := range g.AllClassAttributes() {
		cls = append(cls, a.GetName())
	}
	return vh.Ev{"attrs": as, "cls": cls, "rows": rows}
}

// Reorder puts a view over the grid.
func Reorder(rng *rand.Rand, g base.FixedDataGrid) base.FixedDataGrid {
	_, n := g.Size()
	if n == 0 {
		return g
	}
	sel := make([]int, 0)
	for i := 0; i < 1+rng.Intn(n+2); i++ {
		sel = append(sel, rng.Intn(n))
	}
	as := g.AllAttributes()
	var sub []base.Attribute
	for _, i := range rng.Perm(len(as)) {
		sub = append(sub, as[i])
	}
	return base.NewInstancesViewFromVisible(g, sel, sub)
}

func NativeGrid(rng *rand.Rand, rows int) base.FixedDataGrid {
	d := base.NewDenseInstances()
	n := 1 + rng.Intn(6)
	nbin := 0
	if rng.Intn(3) == 0 {
		nbin = 1 + rng.Intn(12)
		if rng.Intn(20) == 0 {
			nbin = 270
		}
	}
	var as []base.Attribute
	for k := 0; k < n+nbin; k++ {
		name := []string{"a", "b c", "x/y", "é\"", "DATA", "ATTRS"}[rng.Intn(6)] + fmt.Sprint(k)
		if k == 0 && rng.Intn(3) == 0 {
			name = ""
		}
		switch {
		case k >= n:
			as = append(as, base.NewBinaryAttribute(name))
		case rng.Intn(2) == 0:
			f := base.NewFloatAttribute(name)
			f.Precision = rng.Intn(16)
			as = append(as, f)
		default:
			c := new(base.CategoricalAttribute)
			for j := 0; j < rng.Intn(5); j++ {
				c.GetSysValFromString([]string{"x", "y,z", "<&>", "ü", "", "\n"}[rng.Intn(6)])
			}
			if rng.Intn(20) == 0 {
				for j := 0; j < 300; j++ {
					c.GetSysValFromString(fmt.Sprintf("label %d", j))
				}
			}
			c.SetName(name)
			as = append(as, c)
		}
	}
	for _, a := range as {
		d.AddAttribute(a)
	}
	for i := 0; i < rng.Intn(3) && i < len(as); i++ {
		d.AddClassAttribute(as[rng.Intn(len(as))])
	}
	if rows > 0 {
		d.Extend(rows)
	}
	for _, a := range as {
		sp, _ := d.GetAttribute(a)
		for r := 0; r < rows; r++ {
			switch x := a.(type) {
			case *base.CategoricalAttribute:
				if len(x.GetValues()) > 0 {
					d.Set(sp, r, base.PackU64ToBytes(uint64(rng.Intn(len(x.GetValues())))))
				}
			case *base.BinaryAttribute:
				d.Set(sp, r, []byte{byte(rng.Intn(2))})
			default:
				v := float64(rng.Intn(200)-100) / 8
				switch rng.Intn(12) {
				case 0:
					v = math.NaN()
				case 1:
					v = math.Inf(1)
				case 2:
					v = math.Copysign(0, -1)
				case 3:
					v = math.Float64frombits(rng.Uint64())
				}
				d.Set(sp, r, base.PackFloatToBytes(v))
			}
		}
	}
	return d
}

func BulkRows(g base.FixedDataGrid, names []string) []string {
	_, n := g.Size()
	out := make([]string, n)
	for _, nm := range names {
		a := base.GetAttributeByName(g, nm)
		if a == nil {
			return []string{"missing " + nm}
		}
		sp, _ := g.GetAttribute(a)
		for r := range out {
			out[r] += vh.Hex(g.Get(sp, r)) + "."
		}
	}
	return out
}
