---- MODULE Layers ----
(* Networks in layers: inputs, hidden layers, outputs; every node is joined to all nodes of the next layer
   and nothing else (and each input to itself). With hidden weights large enough each hidden value is 0, a
   half or 1, by the sign of its sum; values are doubled here, so that everything is a whole number. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Before(_, _)
Before(ns, k) == IF k = 1 THEN 0 ELSE ns[k - 1] + Before(ns, k - 1)
Layer(ns, k) == {Before(ns, k) + i : i \in 1..ns[k]}
Size(ns) == Before(ns, Len(ns) + 1)
Wires(ns) == {<<i, i>> : i \in 1..ns[1]} \cup UNION {Layer(ns, k) \X Layer(ns, k + 1) : k \in 1..Len(ns) - 1}
\* numeric features of a row: a label of three or more becomes one number per label
RECURSIVE Expand(_, _)
Expand(kinds, row) == IF kinds = <<>> THEN <<>>
  ELSE (IF Head(kinds) > 2 THEN [i \in 1..Head(kinds) |-> IF i = Head(row) + 1 THEN 1 ELSE 0] ELSE <<Head(row)>>) \o Expand(Tail(kinds), Tail(row))
RECURSIVE Inputs(_)
Inputs(kinds) == IF kinds = <<>> THEN 0 ELSE (IF Head(kinds) > 2 THEN Head(kinds) ELSE 1) + Inputs(Tail(kinds))
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Sums(ns, w, b, k, below) == [t \in Layer(ns, k) |-> 2 * b[t] + SumOver([s \in DOMAIN below |-> w[s][t] * below[s]], DOMAIN below)]
Squash(z) == [t \in DOMAIN z |-> IF z[t] > 0 THEN 2 ELSE IF z[t] < 0 THEN 0 ELSE 1]
RECURSIVE Values(_, _, _, _, _)
Values(ns, w, b, k, x) == IF k = 1 THEN [i \in 1..ns[1] |-> 2 * x[i]]
  ELSE LET below == TLCEval(Values(ns, w, b, k - 1, x)) IN Squash(Sums(ns, w, b, k, below))
\* the doubled sums of the outputs
Scores(ns, w, b, x) == LET n == Len(ns) z == TLCEval(Sums(ns, w, b, n, TLCEval(Values(ns, w, b, n - 1, x)))) IN [i \in 1..ns[n] |-> z[Before(ns, n) + i]]
Table == <<500000, 622459, 731059, 817574, 880797, 924142, 952574, 970688, 982014, 989013, 993307, 995930, 997527, 998499, 999089, 999447, 999665, 999797, 999877, 999925, 999955, 999972, 999983, 999990, 999994, 999996, 999998, 999999, 999999, 999999, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000>>
\* the logistic function of half of z, in millionths
Logistic(z) == LET at == IF z >= 0 THEN z + 1 ELSE 1 - z
                   up == IF at > Len(Table) THEN 1000000 ELSE Table[at]
               IN IF z >= 0 THEN up ELSE 1000000 - up
\* the classes (from 0) a row may get; a single output stands for the second of two classes
Winners(scores) == IF Len(scores) = 1 THEN (IF scores[1] > 0 THEN {1} ELSE IF scores[1] < 0 THEN {0} ELSE {0, 1})
                   ELSE {i - 1 : i \in {i \in DOMAIN scores : \A j \in DOMAIN scores : scores[i] >= scores[j]}}
====
