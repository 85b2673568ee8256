---- MODULE Forest ----
(* A random forest: trees grown from bootstrap samples over a few features each; the answer for a row
   is a class with most votes. A tree may answer in several ways for a value it has no branch for. *)
EXTENDS Trees
Used(T) == {T[i].attr : i \in 1..Len(T)} \ {0}
Total(n) == SumOf(n.dist, DOMAIN n.dist)
\* T comes from as many rows as D has, all of them rows of D, and looks at no more than k attributes
FromSample(D, k, T) ==
  /\ Total(T[1]) = Len(D.rows)
  /\ Used(T) \subseteq Attrs(D) /\ Cardinality(Used(T)) <= k
  /\ \A i \in 1..Len(T) :
       /\ MostFrequent(T[i])
       /\ T[i].kids # <<>> => (\A c \in DOMAIN T[i].dist : T[i].dist[c] = SumOf([j \in 1..Len(T[i].kids) |-> T[T[i].kids[j].id].dist[c]], 1..Len(T[i].kids)))
       /\ T[i].kids = <<>> => (\A k2 \in DOMAIN T[i].dist : T[i].dist[k2] > 0 => \E r \in All(D) : D.cls[r] = k2 /\ i \in LeavesOf(D.typ, T, 1, D.rows[r]))
Possible(typ, T, x) == {T[i].cls : i \in LeavesOf(typ, T, 1, x)}
RECURSIVE Tallies(_, _, _, _, _)
Tallies(typ, Ts, nc, k, x) ==
  IF k = 0 THEN {[c \in 1..nc |-> 0]}
  ELSE LET before == TLCEval(Tallies(typ, Ts, nc, k - 1, x)) IN {[t EXCEPT ![c] = @ + 1] : t \in before, c \in Possible(typ, Ts[k], x)}
Wins(t, c) == c \in DOMAIN t /\ t[c] > 0 /\ \A d \in DOMAIN t : t[c] >= t[d]
Elected(typ, Ts, nc, x, c) == \E t \in Tallies(typ, Ts, nc, Len(Ts), x) : Wins(t, c)
====
