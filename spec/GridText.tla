---- MODULE GridText ----
(* What a data set looks like in print: a summary gives its size, its attributes in order with a star at the
   classes, its first rows, and how many it leaves out; the text of one row gives that row's values in order.
   A grid is [attrs, cls, rows] as in Codec: attrs are [name, type, labels], cls a set of names, cells are
   strings (c0, c1, .. for labels, numbers otherwise); a printed value is a field [text, num, isnum]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* the text of a cell of attribute a
Shows(a, cell, f) ==
  IF a.type = "cat" THEN \E i \in 1..Len(a.labels) : cell = "c" \o ToString(i - 1) /\ f.text = a.labels[i]
  ELSE f.isnum /\ f.num = cell
ShowsRow(g, r, fs) == Len(fs) = Len(g.attrs) /\ \A k \in 1..Len(fs) : Shows(g.attrs[k], g.rows[r][k], fs[k])
RECURSIVE Joined(_, _)
Joined(s, i) == IF i > Len(s) THEN "" ELSE (IF i = 1 THEN "" ELSE " ") \o s[i] \o Joined(s, i + 1)
Described(a) == CASE a.type = "float" -> "FloatAttribute(" \o a.name \o ")"
                  [] a.type = "bin" -> "BinaryAttribute(" \o a.name \o ")"
                  [] OTHER -> "CategoricalAttribute(\"" \o a.name \o "\", [" \o Joined(a.labels, 1) \o "])"
AtLeast == 5       \* rows a summary of a larger data set shows
Min2(a, b) == IF a < b THEN a ELSE b
\* s: [cols, rows, attrs, shown, left], negative for numbers not given
MaySum(g, s, atleast) ==
  /\ s.cols >= 0 => s.cols = Len(g.attrs)
  /\ s.rows >= 0 => s.rows = Len(g.rows)
  /\ Len(s.attrs) = Len(g.attrs)
  /\ \A k \in 1..Len(g.attrs) : s.attrs[k].text = Described(g.attrs[k]) /\ s.attrs[k].star = (g.attrs[k].name \in g.cls)
  /\ Len(s.shown) <= Len(g.rows) /\ Len(s.shown) >= Min2(atleast, Len(g.rows))
  /\ \A r \in 1..Len(s.shown) : ShowsRow(g, r, s.shown[r])
  /\ s.left >= 0 => s.left = Len(g.rows) - Len(s.shown)
====
