---- MODULE MCCart ----
(* Greedy growth over every small data set, taking any best split each time. *)
EXTENDS Cart
CONSTANTS N, Crits, Greedy
VARIABLES D, T, open, crit, lim
vars == <<D, T, open, crit, lim>>
Leaf(S) == IF Classifies(crit) THEN (IF Cardinality({r \in S : D.cls[r] = 2}) > Cardinality({r \in S : D.cls[r] = 1}) THEN 2 ELSE 1)
           ELSE (Scale * Targets(D, S)) \div Cardinality(S)
Init == /\ \E rs \in [1..N -> {<<x, y>> : x \in 0..1, y \in 0..2}], cs \in [1..N -> 1..2] : D = [typ |-> <<"num", "num">>, rows |-> rs, cls |-> cs]
        /\ crit \in Crits /\ lim \in {-1, 0, 1, 2} /\ T = <<>> /\ open = {[S |-> 1..N, depth |-> 1, par |-> 0, side |-> 0]}
Link(o, t) == IF o.par = 0 THEN t ELSE IF o.side = 0 THEN [t EXCEPT ![o.par].left = Len(t)] ELSE [t EXCEPT ![o.par].right = Len(t)]
Close(o) == /\ CMayStop(crit, lim, D, o.S, o.depth) /\ open' = open \ {o}
            /\ T' = IF o.par = 0 THEN <<[feat |-> 1, thr2 |-> 0, ll |-> Leaf(o.S), rl |-> Leaf(o.S), left |-> 0, right |-> 0]>> ELSE T
Split(o) == \E f \in Attrs(D) : \E v \in Cuts(D, o.S, f) :
   LET L == {r \in o.S : D.rows[r][f] <= v} R == o.S \ L IN
   /\ ~CMayStop(crit, lim, D, o.S, o.depth)
   /\ Greedy => \A x \in Losses(crit, D, o.S) : SplitLoss(crit, D, o.S, f, v) <= x
   /\ T' = Link(o, Append(T, [feat |-> f, thr2 |-> 2 * v + 1, ll |-> Leaf(L), rl |-> Leaf(R), left |-> 0, right |-> 0]))
   /\ open' = (open \ {o}) \cup {[S |-> L, depth |-> o.depth + 1, par |-> Len(T) + 1, side |-> 0], [S |-> R, depth |-> o.depth + 1, par |-> Len(T) + 1, side |-> 1]}
Next == /\ \E o \in open : Close(o) \/ Split(o)
        /\ UNCHANGED <<D, crit, lim>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == open = {} => CTree(crit, lim, D, T)
\* the tree does at least as well on its training rows as the best constant answer
BestConstant == IF Classifies(crit) THEN Cardinality({r \in 1..N : D.cls[r] = Leaf(1..N)}) ELSE 0
Useful == open = {} /\ Classifies(crit) => Cardinality({r \in 1..N : CAnswer(T, 1, D.rows[r]) = D.cls[r]}) >= BestConstant
Terminates == <>(open = {})
====
