---- MODULE Table ----
(* A grid seen as a table: a sequence of rows, each a sequence of cells. The operations that rearrange
   or divide tables are nondeterministic actions: any ordered permutation is a sort, any permutation a
   shuffle, any division of the rows into two sequences a train/test split.
   ord gives the numeric order of cell values: cells are indices into it, equal entries are equal numbers. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES tab,   \* the table
          ord    \* ord[v]: the rank of cell value v among all values
tvars == <<tab, ord>>

Rng(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* Same rows with the same multiplicities (where no row repeats: the same set).
Single(s) == Cardinality(Rng(s)) = Len(s)
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ IF Single(s) THEN Rng(s) = Rng(t) ELSE \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
BagUnion(u, s, t) == /\ Len(u) = Len(s) + Len(t)
                     /\ IF Single(u) THEN Rng(u) = Rng(s) \cup Rng(t)
                        ELSE \A i \in 1..Len(u) : Count(u, u[i]) = Count(s, u[i]) + Count(t, u[i])

RECURSIVE LexLeq(_, _, _, _)
LexLeq(x, y, keys, i) == IF i > Len(keys) THEN TRUE
                         ELSE LET a == ord[x[keys[i]]] b == ord[y[keys[i]]] IN
                              a < b \/ (a = b /\ LexLeq(x, y, keys, i + 1))
Ordered(s, keys, asc) == \A i \in 1..(Len(s) - 1) : IF asc THEN LexLeq(s[i], s[i + 1], keys, 1) ELSE LexLeq(s[i + 1], s[i], keys, 1)
Keys(s, keys) == [i \in 1..Len(s) |-> [k \in 1..Len(keys) |-> ord[s[i][keys[k]]]]]

\* out is the result; the lazy forms leave the table as it is.
SortTo(out, keys, asc, inPlace) ==
  /\ SameBag(tab, out)
  /\ Ordered(out, keys, asc)
  /\ tab' = IF inPlace THEN out ELSE tab
  /\ UNCHANGED ord
ShuffleTo(out, inPlace) ==
  /\ SameBag(tab, out)
  /\ tab' = IF inPlace THEN out ELSE tab
  /\ UNCHANGED ord
\* The split may shuffle an in-memory source first.
SplitInto(train, test, after) ==
  /\ BagUnion(tab, train, test)
  /\ SameBag(tab, after)
  /\ tab' = after
  /\ UNCHANGED ord
SampleOf(out, n) ==
  /\ Len(out) = n
  /\ Rng(out) \subseteq Rng(tab)
  /\ UNCHANGED tvars
====
