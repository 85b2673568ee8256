---- MODULE MCMetrics ----
(* Counting the rows one by one, for every reference and prediction of N rows over C classes. *)
EXTENDS Metrics
CONSTANTS N, C,
          Careful  \* FALSE: the first row of a reference class is forgotten
VARIABLES ref, gen, i, m
vars == <<ref, gen, i, m>>
K == 1..C
Init == ref \in [1..N -> K] /\ gen \in [1..N -> K] /\ i = 0 /\ m = [p \in {} |-> 0]
Count == /\ i < N /\ i' = i + 1
         /\ LET p == <<ref[i'], gen[i']>> IN
            m' = [q \in DOMAIN m \cup {p} |-> IF q # p THEN m[q] ELSE IF ref[i'] \notin {x[1] : x \in DOMAIN m} THEN (IF Careful THEN 1 ELSE 0) ELSE At(m, p[1], p[2]) + 1]
         /\ UNCHANGED <<ref, gen>>
Spec == Init /\ [][Count]_vars /\ WF_vars(Count)
Prefix(s) == SubSeq(s, 1, i)
Right == Same(m, Counted(Prefix(ref), Prefix(gen))) /\ Total(m) = i
Laws == /\ \A k \in K : TP(m, k) + FP(m, k) + FN(m, k) + TN(m, k) = Total(m)
        /\ i > 0 => MicroPrecision(m) = Accuracy(m) /\ MicroRecall(m) = Accuracy(m)
        /\ \A k \in K : LET p == Precision(m, k) r == Recall(m, k) f == F1(m, k) IN
             (p # Undefined /\ r # Undefined /\ p + r > 0) => f - ((2 * (p \div 100) * (r \div 100)) \div ((p + r) \div 100)) * 100 \in -400..400
        /\ Hits(m) = Total(m) /\ i > 0 => MacroPrecision(m) = 1000000 /\ MacroRecall(m) = 1000000
Ends == <>(i = N)
====
