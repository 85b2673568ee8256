---- MODULE Codec ----
(* Data sets and their text and binary forms. A data set is attributes (type, name, labels in code
   order), class attribute names and rows of cells; cells are strings: "c<code>" for a categorical
   cell, the canonical number for a numeric one, "0"/"1" for a binary one.
   A field of a text file is its trimmed text, and its canonical number when the text is a number. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES g,      \* the data set in memory
          store   \* what was last written: the data set, or "none"
Rng(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(Rng(s)) = Len(s)
Idx(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
RECURSIVE AddLabels(_, _)
AddLabels(labels, texts) == IF texts = <<>> THEN labels
  ELSE AddLabels(IF Head(texts) = "" \/ Head(texts) \in Rng(labels) THEN labels ELSE Append(labels, Head(texts)), Tail(texts))
Code(labels, text) == "c" \o ToString(Idx(labels, text) - 1)
Column(lines, k) == [r \in 1..Len(lines) |-> lines[r][k]]
Texts(col) == [r \in 1..Len(col) |-> col[r].text]
\* A missing field reads as zero.
CellOf(a, f) == IF f.text = "" THEN (IF a.type = "cat" THEN "c0" ELSE "0")
                ELSE IF a.type = "cat" THEN Code(a.labels, f.text)
                ELSE IF a.type = "bin" THEN (IF f.num = "0" THEN "0" ELSE "1") ELSE f.num
\* A field that is not a number cannot be stored in a numeric column.
Readable(attrs, lines) == \A r \in 1..Len(lines) : \A k \in 1..Len(attrs) : attrs[k].type = "float" => lines[r][k].text = "" \/ lines[r][k].isnum
Typed(names, lines) == [k \in 1..Len(names) |->
   IF lines[1][k].isnum THEN [type |-> "float", name |-> names[k], labels |-> <<>>]
   ELSE [type |-> "cat", name |-> names[k], labels |-> AddLabels(<<>>, Texts(Column(lines, k)))]]
TableOf(attrs, lines) == [r \in 1..Len(lines) |-> [k \in 1..Len(attrs) |-> CellOf(attrs[k], lines[r][k])]]
ParseCSV(names, lines) == LET as == Typed(names, lines) IN
   [attrs |-> as, cls |-> {names[Len(names)]}, rows |-> TableOf(as, lines)]
\* Some columns given attributes of the caller's own: over[k] is their type, or "".
TypedAs(over, names, lines) == [k \in 1..Len(names) |->
   IF over[k] = "" THEN Typed(names, lines)[k]
   ELSE [type |-> over[k], name |-> names[k], labels |-> IF over[k] = "cat" THEN AddLabels(<<>>, Texts(Column(lines, k))) ELSE <<>>]]
ParseAs(over, names, lines, cls) == LET as == TLCEval(TypedAs(over, names, lines)) IN [attrs |-> as, cls |-> cls, rows |-> TableOf(as, lines)]
\* With a template: its attributes, in its order, with labels of the new file added behind its own.
ParseLike(t, names, lines) ==
  LET file(a) == Idx(names, a.name)
      as == [k \in 1..Len(t.attrs) |-> IF t.attrs[k].type = "cat" /\ t.attrs[k].name \in Rng(names)
               THEN [t.attrs[k] EXCEPT !.labels = AddLabels(@, Texts(Column(lines, file(t.attrs[k]))))] ELSE t.attrs[k]] IN
  [attrs |-> as, cls |-> t.cls,
   rows |-> [r \in 1..Len(lines) |-> [k \in 1..Len(as) |-> CellOf(as[k], lines[r][file(as[k])])]]]
\* ARFF declares its attributes; an undeclared label cannot be read.
Declared(attrs, lines) == \A r \in 1..Len(lines), k \in 1..Len(attrs) :
   IF attrs[k].type = "cat" THEN lines[r][k].text \in Rng(attrs[k].labels) ELSE lines[r][k].isnum
ParseARFF(attrs, lines) == [attrs |-> attrs, cls |-> {attrs[Len(attrs)].name}, rows |-> TableOf(attrs, lines)]

\* Comparisons by attribute name: files may carry the columns in another order.
Names(x) == [k \in 1..Len(x.attrs) |-> x.attrs[k].name]
Perm(x, y) == [k \in 1..Len(x.attrs) |-> Idx(Names(y), x.attrs[k].name)]
Shape(x, y) == /\ NoDup(Names(x)) /\ Len(x.attrs) = Len(y.attrs) /\ Rng(Names(x)) = Rng(Names(y)) /\ Len(x.rows) = Len(y.rows)
\* everything agrees, encodings included
Identical(x, y) == /\ Shape(x, y) /\ x.cls = y.cls
                   /\ LET p == Perm(x, y) IN
                      /\ \A k \in 1..Len(x.attrs) : x.attrs[k] = y.attrs[p[k]]
                      /\ \A r \in 1..Len(x.rows), k \in 1..Len(x.attrs) : x.rows[r][k] = y.rows[r][p[k]]
LabelOf(a, cell, r, k) == a.labels[CHOOSE i \in 1..Len(a.labels) : cell = "c" \o ToString(i - 1)]
\* values agree; encodings of labels may differ
SameValues(x, y) == /\ Shape(x, y)
                    /\ LET p == Perm(x, y) IN
                       /\ \A k \in 1..Len(x.attrs) : x.attrs[k].type = y.attrs[p[k]].type
                       /\ \A r \in 1..Len(x.rows), k \in 1..Len(x.attrs) :
                            IF x.attrs[k].type = "cat"
                            THEN LabelOf(x.attrs[k], x.rows[r][k], r, k) = LabelOf(y.attrs[p[k]], y.rows[r][p[k]], r, k)
                            ELSE x.rows[r][k] = y.rows[r][p[k]]
\* the text file itself: header = the names; each field the value of the cell
Written(x, header, lines) ==
  /\ NoDup(header) /\ Rng(header) = Rng(Names(x)) /\ Len(header) = Len(x.attrs)
  /\ Len(lines) = Len(x.rows)
  /\ \A r \in 1..Len(lines) : Len(lines[r]) = Len(header) /\ \A k \in 1..Len(x.attrs) :
       LET f == lines[r][Idx(header, x.attrs[k].name)] IN
       IF x.attrs[k].type = "cat" THEN f.text = LabelOf(x.attrs[k], x.rows[r][k], r, k) ELSE f.isnum /\ f.num = x.rows[r][k]
====
