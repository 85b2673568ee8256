---- MODULE Pca ----
(* Principal components in whole numbers. A is n times the scatter of the rows about their mean. Directions v
   are known S times over to the nearest whole number; the tolerances are what that rounding can do. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES data,   \* the rows fitted on
          axes    \* the directions: axes[a][j], S times over
pvars == <<data, axes>>
Abs(x) == IF x < 0 THEN -x ELSE x
Plus(s) == LET P[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE P[k - 1] + s[k] IN P[Len(s)]
Dot(u, v) == Plus([k \in DOMAIN u |-> u[k] * v[k]])
Dims == Len(data[1])
Sum(j) == Plus([i \in DOMAIN data |-> data[i][j]])
A == [j \in 1..Dims |-> [k \in 1..Dims |-> Len(data) * Plus([i \in DOMAIN data |-> data[i][j] * data[i][k]]) - Sum(j) * Sum(k)]]
Apply(M, v) == [j \in DOMAIN M |-> Dot(M[j], v)]
\* a row's distance from the mean, n times over
Centred(x) == [j \in DOMAIN x |-> Len(data) * x[j] - Sum(j)]
Min(x, y) == IF x < y THEN x ELSE y
\* how many directions are given when k are asked for: 0 or too many means all there are
Given(k) == IF k = 0 \/ k > Dims THEN Min(Len(data), Dims) ELSE k
====
