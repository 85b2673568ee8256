---- MODULE Filter ----
(* A lazily filtered grid over a source grid: chosen attributes show as their images under the
   filter, the others as they are. Output attribute <<i, j>> is the j-th image of source attribute i.
   Kinds of attribute: "f" number, "b" bit, "c" label out of n. Filters: "binary" and "float" convert
   chosen attributes (labels out of more than two become one indicator each); "custom" shows a number
   as two, its negative and its successor. Class marks of the filtered grid are its own. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES attrs,  \* source attributes: sequence of [kind, n]
          cells,  \* cells[row][attribute]
          flt,    \* [kind, chosen]
          cls     \* class-marked output attributes
fvars == <<attrs, cells, flt, cls>>
Rng(s) == {s[i] : i \in 1..Len(s)}
Is == 1..Len(attrs)
Hot(i) == i \in flt.chosen /\ flt.kind # "custom" /\ attrs[i].kind = "c" /\ attrs[i].n > 2
Images(i) == IF i \notin flt.chosen THEN 1 ELSE IF Hot(i) THEN attrs[i].n ELSE IF flt.kind = "custom" THEN 2 ELSE 1
Outs == UNION {{<<i, j>> : j \in 1..Images(i)} : i \in Is}
KindOf(o) == IF o[1] \notin flt.chosen THEN attrs[o[1]].kind ELSE IF flt.kind = "binary" THEN "b" ELSE "f"
\* Is the image the attribute itself?
Itself(i) == i \notin flt.chosen \/ (flt.kind = "binary" /\ attrs[i].kind = "b") \/ (flt.kind = "float" /\ attrs[i].kind = "f")
Bit(p) == IF p THEN 1 ELSE 0
Image(x, o) == LET i == o[1] IN
  CASE Itself(i) -> x
    [] flt.kind = "custom" -> IF o[2] = 1 THEN -x ELSE x + 1
    [] Hot(i) -> Bit(x = o[2] - 1)
    [] OTHER -> Bit(x # 0)
OutCell(r, o) == Image(cells[r][o[1]], o)
ImagesOf(is) == UNION {{<<i, j>> : j \in 1..Images(i)} : i \in is}

\* as: the source's attributes in order; c: its class attributes
Setup(as, rows, f, c) == attrs' = as /\ cells' = rows /\ flt' = f
                         /\ cls' = UNION {{<<i, j>> : j \in 1..(IF i \notin f.chosen THEN 1
                                                                ELSE IF f.kind = "custom" THEN 2
                                                                ELSE IF as[i].kind = "c" /\ as[i].n > 2 THEN as[i].n ELSE 1)} : i \in c}
Write(r, i, x) == cells' = [cells EXCEPT ![r][i] = x] /\ UNCHANGED <<attrs, flt, cls>>
\* Marking by the source's attribute marks all its images.
MarkOld(i, on) == cls' = (IF on THEN cls \cup ImagesOf({i}) ELSE cls \ ImagesOf({i})) /\ UNCHANGED <<attrs, cells, flt>>
MarkNew(o, on) == cls' = (IF on THEN cls \cup {o} ELSE cls \ {o}) /\ UNCHANGED <<attrs, cells, flt>>
MarkUnknown == UNCHANGED fvars
====
