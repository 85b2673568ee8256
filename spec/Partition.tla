---- MODULE Partition ----
(* A table of labelled rows and the ways the library divides it: by the value of a column, by a numeric
   threshold, and into per-class counts, plain or per group. Cells are value numbers; nam[k][v] is the
   printed form of value v in column k and ord[v] its numeric order. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES tab, ord, nam, cls  \* cls: the class column (0 if none)
pvars == <<tab, ord, nam, cls>>

Rng(s) == {s[i] : i \in 1..Len(s)}
Occ(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Occ(s, s[i]) = Occ(t, s[i])
Without(row, k) == [i \in 1..(Len(row) - 1) |-> IF i < k THEN row[i] ELSE row[i + 1]]
RowsWhere(T(_)) == {i \in 1..Len(tab) : T(tab[i])}
Sub(T(_)) == SelectSeq(tab, T)
Reduced(s, k) == [i \in 1..Len(s) |-> Without(s[i], k)]

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
NoDup(s) == Cardinality(Rng(s)) = Len(s)
Names(out) == [i \in 1..Len(out) |-> out[i].name]
At(out, n) == LET S == {i \in 1..Len(out) : out[i].name = n} IN IF S = {} THEN 0 ELSE out[CHOOSE i \in S : TRUE].n

Group(k, x) == nam[k][x[k]]
\* parts: one per name; key(x) is the name of the part row x belongs in.
PartsOf(parts, k, key(_)) ==
  /\ NoDup(Names(parts))
  /\ Total([i \in 1..Len(parts) |-> Len(parts[i].rows)]) = Len(tab)
  /\ \A i \in 1..Len(parts) : LET mine(x) == key(x) = parts[i].name IN SameBag(Reduced(Sub(mine), k), parts[i].rows)
Decompose(k, parts) == LET key(x) == Group(k, x) IN PartsOf(parts, k, key) /\ UNCHANGED pvars
Side(k, thr, x) == IF ord[x[k]] > thr THEN "1" ELSE "0"
Threshold(k, thr, parts) == LET key(x) == Side(k, thr, x) IN PartsOf(parts, k, key) /\ UNCHANGED pvars

\* out: counts by name; sel says which rows are counted.
CountsOf(out, sel(_)) ==
  /\ NoDup(Names(out))
  /\ Total([i \in 1..Len(out) |-> out[i].n]) = Cardinality(RowsWhere(sel))
  /\ \A i \in 1..Len(out) : LET hit(x) == sel(x) /\ Group(cls, x) = out[i].name IN out[i].n = Cardinality(RowsWhere(hit))
Distribution(out) == LET all(x) == TRUE IN CountsOf(out, all) /\ UNCHANGED pvars
GroupsOf(out, key(_)) ==
  /\ NoDup(Names(out))
  /\ \A i \in 1..Len(tab) : \E j \in 1..Len(out) : out[j].name = key(tab[i])
  /\ \A j \in 1..Len(out) : LET in(x) == key(x) = out[j].name IN CountsOf(out[j].counts, in)
GroupedBy(k, out) == LET key(x) == Group(k, x) IN GroupsOf(out, key) /\ UNCHANGED pvars
GroupedByThreshold(k, thr, out) == LET key(x) == Side(k, thr, x) IN GroupsOf(out, key) /\ UNCHANGED pvars
\* counts indexed by the class's code, in code order
Coded(out, codes) ==
  /\ Len(out) = Len(codes)
  /\ \A i \in 1..Len(codes) : LET hit(x) == x[cls] = codes[i] IN out[i] = Cardinality(RowsWhere(hit))
  /\ UNCHANGED pvars
\* rows whose class number is above a half, and the others
Halves(out, half) ==
  LET hi(x) == ord[x[cls]] > half IN
  out = <<Len(tab) - Cardinality(RowsWhere(hi)), Cardinality(RowsWhere(hi))>> /\ UNCHANGED pvars
====
