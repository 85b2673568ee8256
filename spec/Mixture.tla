---- MODULE Mixture ----
(* Hard assignment to the component of highest density. A component's cost at a point is twice the negated
   log-density, up to a common constant, in millionths: q/d for the distance part and h * log 2 for the
   determinant d = 2^h. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Log2 == 693147
\* one or two features with any covariance [[a, b], [b, e]], or more with variances
Cost(k, x) ==
  LET d == [i \in 1..Len(x) |-> x[i] - k.mean[i]] IN
  (CASE k.kind = "full" -> (1000000 * (k.e * d[1] * d[1] - 2 * k.b * d[1] * d[2] + k.a * d[2] * d[2])) \div (2 ^ k.h)
     [] k.kind = "diag" -> LET p[i \in 0..Len(x)] == IF i = 0 THEN 0 ELSE p[i - 1] + (1000000 * d[i] * d[i]) \div (2 ^ k.logv[i]) IN p[Len(x)])
  + k.h * Log2
\* A mixture of one component is the mean (times the number of rows n) and the covariance
\* (times n * (n - 1)) of the rows, or only the variances if there are fewer rows than features.
Total(xs, f(_)) == LET s[k \in 0..Len(xs)] == IF k = 0 THEN 0 ELSE s[k - 1] + f(xs[k]) IN s[Len(xs)]
SumCol(xs, i) == Total(xs, LAMBDA x : x[i])
SumProd(xs, i, j) == Total(xs, LAMBDA x : x[i] * x[j])
OnlyComponent(xs, mean, cov) ==
  LET n == Len(xs) F == DOMAIN xs[1] IN
  /\ mean = [i \in F |-> SumCol(xs, i)]
  /\ \A i, j \in F : cov[i][j] = IF i # j /\ n < Len(xs[1]) THEN 0 ELSE n * SumProd(xs, i, j) - SumCol(xs, i) * SumCol(xs, j)
\* the components whose cost is least, up to rounding
Best(costs) == {i \in DOMAIN costs : \A j \in DOMAIN costs : costs[i] <= costs[j] + 20}
\* clusters: component -> rows, from 0 both
Complete(clusters, n) == /\ \A i \in DOMAIN clusters : Len(clusters[i].rows) = Cardinality({clusters[i].rows[j] : j \in DOMAIN clusters[i].rows})
                         /\ \A i, j \in DOMAIN clusters : i # j => clusters[i].id # clusters[j].id
                         /\ \A r \in 0..n - 1 : Cardinality({i \in DOMAIN clusters : \E j \in DOMAIN clusters[i].rows : clusters[i].rows[j] = r}) = 1
                         /\ \A i \in DOMAIN clusters : \A j \in DOMAIN clusters[i].rows : clusters[i].rows[j] \in 0..n - 1
Component(clusters, r) == clusters[CHOOSE i \in DOMAIN clusters : \E j \in DOMAIN clusters[i].rows : clusters[i].rows[j] = r].id
====
