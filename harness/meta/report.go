package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/evaluation"
	"github.com/sjwhitworth/golearn/verifdrv/vh"
)

func cellsOf(l string) []string {
	out := make([]string, 0)
	for _, f := range strings.Split(l, "\t") {
		if f != "" {
			out = append(out, f)
		}
	}
	return out
}

func wholeText(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return vh.BadInt
	}
	return n
}

func microText(s string) int {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return vh.BadInt
	}
	return micro(math.Floor(f*1e6+0.5) / 1e6)
}

func tableOf(s string, index func(string) int) vh.Ev {
	cols, lines := make([]int, 0), make([]vh.Ev, 0)
	for i, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		f := cellsOf(l)
		switch {
		case len(f) == 0:
			lines = append(lines, vh.Ev{"k": -1, "ns": []int{}})
		case i == 0:
			for _, k := range f[1:] {
				cols = append(cols, index(k))
			}
		case strings.Trim(f[0], "-") == "":
		default:
			ns := make([]int, 0)
			for _, n := range f[1:] {
				ns = append(ns, wholeText(n))
			}
			lines = append(lines, vh.Ev{"k": index(f[0]), "ns": ns})
		}
	}
	return vh.Ev{"cols": cols, "lines": lines}
}

func summaryOf(s string, index func(string) int) vh.Ev {
	names := map[string]string{"True Positives": "tp", "False Positives": "fp", "True Negatives": "tn", "Precision": "precision", "Recall": "recall", "F1 Score": "f1"}
	lines, acc := make([]vh.Ev, 0), vh.BadInt
	var head []string
	for i, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		f := cellsOf(l)
		switch {
		case i == 0:
			head = f
		case strings.HasPrefix(l, "Overall accuracy: "):
			acc = microText(strings.TrimPrefix(l, "Overall accuracy: "))
		case len(f) > 0 && strings.Trim(f[0], "-") == "":
		default:
			e := vh.Ev{"k": -1, "tp": vh.BadInt, "fp": vh.BadInt, "tn": vh.BadInt, "precision": vh.BadInt, "recall": vh.BadInt, "f1": vh.BadInt}
			for j, x := range f {
				switch {
				case j == 0:
					e["k"] = index(x)
				case j < len(head) && j < 4:
					e[names[head[j]]] = wholeText(x)
				case j < len(head):
					e[names[head[j]]] = microText(x)
				}
			}
			lines = append(lines, e)
		}
	}
	return vh.Ev{"lines": lines, "accuracy": acc}
}

func reports(t *vh.T) {
	rng := t.Rng
	labels := []string{"a", "b b", "c", "0", "class", "Reference Class", "A", "Iris-setosa", "1", "NaN"}
	rng.Shuffle(len(labels), func(i, j int) { labels[i], labels[j] = labels[j], labels[i] })
	labels = labels[:1+rng.Intn(10)]
	if rng.Intn(10) == 0 {
		for i := 0; i < 40; i++ {
			labels = append(labels, fmt.Sprintf("k%d", i))
		}
	}
	index := func(s string) int {
		for i, l := range labels {
			if l == s {
				return i
			}
		}
		return -1
	}
	var m evaluation.ConfusionMatrix
	if rng.Intn(2) == 0 { // counted from rows
		n := 1 + rng.Intn(60)
		if rng.Intn(8) == 0 {
			n = 257 + rng.Intn(500)
		}
		ref, gen := make([]int, n), make([]int, n)
		few := 1 + rng.Intn(len(labels))
		for i := range ref {
			ref[i], gen[i] = rng.Intn(few), rng.Intn(len(labels))
			if rng.Intn(3) > 0 {
				gen[i] = ref[i]
			}
		}
		var err error
		m, err = evaluation.GetConfusionMatrix(classColumn(rng, 0, labels, ref), classColumn(rng, 0, labels, gen))
		must(err)
		t.Log(vh.Ev{"e": "Count", "ref": ref, "gen": gen})
	} else {
		m = evaluation.ConfusionMatrix{}
		for r := range labels {
			if r == 0 || rng.Intn(4) > 0 {
				m[labels[r]] = map[string]int{labels[rng.Intn(len(labels))]: 1 + rng.Intn(9)}
				for p := range labels {
					if rng.Intn(2) == 0 {
						m[labels[r]][labels[p]] = 1 + rng.Intn([]int{5, 300, 1000000}[rng.Intn(3)])
					}
				}
			}
		}
		t.Log(vh.Ev{"e": "Matrix", "matrix": entries(m, index)})
	}
	t.Log(vh.Ev{"e": "Table", "table": tableOf(evaluation.ShowConfusionMatrix(m), index)})
	t.Log(vh.Ev{"e": "Summary", "sum": summaryOf(evaluation.GetSummary(m), index)})
}

func init() {
	vh.Register("C50", func(c *vh.Ctx) {
		for i := 0; i < c.N(1000, 15000); i++ {
			c.Case("report", reports)
		}
		for _, what := range []string{"cell", "column", "line", "measure"} {
			what := what
			c.Canary(what, reports, func(evs []vh.Ev) []vh.Ev {
				tb := evs[1]["table"].(map[string]interface{})
				ls := evs[2]["sum"].(map[string]interface{})["lines"].([]interface{})
				switch what {
				case "cell":
					ns := tb["lines"].([]interface{})[0].(map[string]interface{})["ns"].([]interface{})
					ns[0] = ns[0].(float64) + 1
				case "column":
					tb["cols"] = append(tb["cols"].([]interface{}), 0.0)
				case "line":
					evs[2]["sum"].(map[string]interface{})["lines"] = ls[1:]
				default:
					o := ls[0].(map[string]interface{})
					o["recall"] = o["recall"].(float64) + 100
				}
				return evs
			})
		}
	})
}
