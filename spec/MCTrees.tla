---- MODULE MCTrees ----
(* Top-down induction with any admissible choice of attribute and threshold, then bottom-up pruning with
   a validation set, over every small data set of one categorical and one numeric attribute. *)
EXTENDS Trees
CONSTANTS N, NV, Sound
VARIABLES D, T, open, info, phase, V, T0
vars == <<D, T, open, info, phase, V, T0>>
Row == {<<x, y>> : x \in 0..1, y \in 0..2}
Node(S) == [attr |-> 0, thr2 |-> 0, kids |-> <<>>, dist |-> [c \in 1..2 |-> Cardinality({r \in S : D.cls[r] = c})],
            cls |-> IF Cardinality({r \in S : D.cls[r] = 2}) > Cardinality({r \in S : D.cls[r] = 1}) THEN 2 ELSE 1]
Init == /\ \E rs \in [1..N -> Row], cs \in [1..N -> 1..2] : D = [typ |-> <<"cat", "num">>, rows |-> rs, cls |-> cs]
        /\ T = <<Node(1..N)>> /\ open = {1} /\ info = <<[S |-> 1..N, As |-> {1, 2}]>> /\ phase = "grow"
        /\ V = [typ |-> <<"cat", "num">>, rows |-> <<>>, cls |-> <<>>] /\ T0 = <<>>
Stop(i) == MayStop(D, info[i].S, info[i].As, 2) /\ open' = open \ {i} /\ UNCHANGED <<D, T, info, phase, V, T0>>
SplitOn(i, a, v) ==
  LET S == info[i].S
      Ps == {Part(D, a, v, r) : r \in S}
      ks == CHOOSE q \in [1..Cardinality(Ps) -> Ps] : \A x \in 1..Len(q) - 1 : q[x] < q[x + 1]
      sub(k) == {r \in S : Part(D, a, v, r) = k} IN
  /\ T' = [T EXCEPT ![i].attr = a, ![i].thr2 = 2 * v + 1, ![i].kids = [j \in 1..Len(ks) |-> [key |-> ks[j], id |-> Len(T) + j]]]
          \o [j \in 1..Len(ks) |-> Node(sub(ks[j]))]
  /\ info' = info \o [j \in 1..Len(ks) |-> [S |-> sub(ks[j]), As |-> info[i].As \ {a}]]
  /\ open' = (open \ {i}) \cup (Len(T) + 1..Len(T) + Len(ks))
  /\ UNCHANGED <<D, phase, V, T0>>
Grow == \E i \in open : /\ phase = "grow"
          /\ \/ Stop(i)
             \/ Cardinality(Classes(D, info[i].S)) > 1 /\ \E a \in info[i].As : \E v \in Cuts(D, info[i].S, a) : SplitOn(i, a, v)
StartPrune == /\ phase = "grow" /\ open = {} /\ phase' = "prune" /\ T0' = T
              /\ \E rs \in [1..NV -> Row], cs \in [1..NV -> 1..2] : V' = [typ |-> D.typ, rows |-> rs, cls |-> cs]
              /\ UNCHANGED <<D, T, open, info>>
\* a row with an unseen value goes to the first branch
RECURSIVE Ans(_, _, _)
Ans(t, i, x) == IF t[i].kids = <<>> THEN t[i].cls
                ELSE LET k == Key(D.typ, t[i], x) IN Ans(t, IF k \in Keys(t[i]) THEN Kid(t[i], k) ELSE t[i].kids[1].id, x)
RECURSIVE At(_, _, _, _)   \* whether the row passes through node i, from node j
At(t, x, i, j) == i = j \/ (t[j].kids # <<>> /\ LET k == Key(D.typ, t[j], x) IN At(t, x, i, IF k \in Keys(t[j]) THEN Kid(t[j], k) ELSE t[j].kids[1].id))
RECURSIVE Direct(_, _, _, _)   \* the same, but only for rows with a branch of their own
Direct(t, x, i, j) == i = j \/ (t[j].kids # <<>> /\ LET k == Key(D.typ, t[j], x) IN k \in Keys(t[j]) /\ Direct(t, x, i, Kid(t[j], k)))
Through(t, i) == {r \in All(V) : IF Sound THEN At(t, V.rows[r], i, 1) ELSE Direct(t, V.rows[r], i, 1)}
RightAt(t, i) == Cardinality({r \in Through(t, i) : Ans(t, i, V.rows[r]) = V.cls[r]})
Collapse(i) == LET u == [T EXCEPT ![i].kids = <<>>, ![i].attr = 0, ![i].thr2 = 0] IN
  /\ phase = "prune" /\ T[i].kids # <<>> /\ Through(T, i) # {}
  /\ RightAt(u, i) >= RightAt(T, i) /\ T' = u /\ UNCHANGED <<D, open, info, phase, V, T0>>
Next == Grow \/ StartPrune \/ \E i \in 1..Len(T) : Collapse(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == open = {} /\ phase = "grow" => Grown(D, T, 1, 1..N, {1, 2}, 2)
\* every training row reaches exactly one leaf, that of its own
Routed == phase = "grow" /\ open = {} => \A r \in 1..N : \E i \in LeavesOf(D.typ, T, 1, D.rows[r]) :
            r \in info[i].S /\ LeavesOf(D.typ, T, 1, D.rows[r]) = {i}
OnlyLeaves == phase = "prune" => PrunedFrom(T0, 1, T, 1)
Score1(t) == Cardinality({r \in All(V) : Ans(t, 1, V.rows[r]) = V.cls[r]})
NoWorse == [][phase = "prune" => Score1(T') >= Score1(T)]_vars
Terminates == <>(phase = "prune")
\* the best gain is never below any other's, and pure rows gain nothing
GainSane == phase = "grow" /\ T[1].kids = <<>> => \A a \in {1, 2}, v \in {0, 1} : Score("gain", D, 1..N, a, v) >= -Tol /\ Score("ratio", D, 1..N, a, v) <= 1000000 + Tol
====
