---- MODULE MCNaiveBayes ----
(* The classifier's own bookkeeping, row by row, for every small training set, and its choice for every row. *)
EXTENDS NaiveBayes
CONSTANTS F, Rows, Labels,
          Absent   \* FALSE: features which are absent are left out of the score
VARIABLES i, seen, terms, phase, x, todo, best
vars == <<train, i, seen, terms, phase, x, todo, best>>
Vecs == [1..F -> {0, 1}]
Init == /\ train \in UNION {[1..n -> [f : Vecs, c : Labels]] : n \in 1..Rows}
        /\ i = 1 /\ seen = [lb \in Labels |-> 0] /\ terms = [lb \in Labels |-> [j \in 1..F |-> 0]] /\ phase = "count" /\ x = <<>> /\ todo = {} /\ best = <<>>
Row == /\ phase = "count" /\ i <= Len(train)
       /\ seen' = [seen EXCEPT ![train[i].c] = @ + 1]
       /\ terms' = [terms EXCEPT ![train[i].c] = [j \in 1..F |-> @[j] + train[i].f[j]]]
       /\ i' = i + 1 /\ UNCHANGED <<train, phase, x, todo, best>>
Known == {lb \in Labels : seen[lb] > 0}
Ask == /\ phase = "count" /\ i > Len(train) /\ phase' = "ask" /\ x' \in Vecs /\ todo' = Known /\ best' = <<>> /\ UNCHANGED <<train, i, seen, terms>>
P(lb, j) == terms[lb][j] + 1
Fac(lb, j) == IF x[j] = 1 THEN P(lb, j) ELSE IF ~Absent THEN seen[lb] + 1 ELSE IF P(lb, j) = seen[lb] + 1 THEN 1 ELSE seen[lb] + 1 - P(lb, j)
Score(lb) == <<seen[lb] * Times([j \in 1..F |-> Fac(lb, j)]), Pow(seen[lb] + 1, F)>>
Look == /\ phase = "ask" /\ todo # {}
        /\ \E lb \in todo : LET s == Score(lb) IN
             /\ todo' = todo \ {lb}
             /\ best' = IF best = <<>> \/ s[1] * best[3] > best[2] * s[2] THEN <<lb, s[1], s[2]>> ELSE best
        /\ UNCHANGED <<train, i, seen, terms, phase, x>>
Spec == Init /\ [][Row \/ Ask \/ Look]_vars
Right == (phase = "ask" /\ todo = {}) => Best(best[1], x)
====
