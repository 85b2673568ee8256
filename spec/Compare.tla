---- MODULE Compare ----
(* Two grids and the relations the library decides between them. A grid is its attributes (type, name,
   labels), the group each attribute is stored in, its rows of cells, and whether it is held in memory. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES g  \* <<first grid, second grid>>
Rng(s) == {s[i] : i \in 1..Len(s)}
\* Attributes are equal when type, name and, for categorical ones, labels in code order agree.
AttrEq(a, b) == a.type = b.type /\ a.name = b.name /\ (a.type = "cat" => a.labels = b.labels)
Has(as, a) == \E i \in 1..Len(as) : AttrEq(as[i], a)
SameAttrs(as, bs) == /\ \A i \in 1..Len(as) : Has(bs, as[i])
                     /\ \A i \in 1..Len(bs) : Has(as, bs[i])
Match(as, a) == CHOOSE i \in 1..Len(as) : AttrEq(as[i], a)
GridEq(x, y) == /\ SameAttrs(x.attrs, y.attrs)
                /\ Len(x.rows) = Len(y.rows)
                /\ \A r \in 1..Len(x.rows), i \in 1..Len(x.attrs) : x.rows[r][i] = y.rows[r][Match(y.attrs, x.attrs[i])]
Groups(x) == Rng(x.group)
InGroup(x, n) == LET mine(i) == x.group[i] = n IN
                 LET idx == SelectSeq([i \in 1..Len(x.attrs) |-> i], mine) IN [i \in 1..Len(idx) |-> x.attrs[idx[i]]]
Strict(x, y) == /\ x.dense /\ y.dense
                /\ Groups(x) = Groups(y)
                /\ \A n \in Groups(x) : LET a == InGroup(x, n) b == InGroup(y, n) IN
                      Len(a) = Len(b) /\ \A i \in 1..Len(a) : AttrEq(a[i], b[i])
Common(as, bs) == LET in(i) == Has(bs, as[i]) IN SelectSeq([i \in 1..Len(as) |-> i], in)
Missing(as, bs) == LET out(i) == ~Has(bs, as[i]) IN SelectSeq([i \in 1..Len(as) |-> i], out)
====
