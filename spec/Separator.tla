---- MODULE Separator ----
(* Linear classifiers through the origin. Training minimises the size of the weights plus C times a loss
   which is 0 for rows beyond the margin and at least 1 for rows on the wrong side; so when some weights u
   put every row beyond the margin at a smaller price than one mistake costs, no training row is mistaken. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES model   \* [kind, c, cw, rows, labels, classes]: C, class weights <<num, den>>, training rows and labels 0, 1, ...
Plus(s) == LET P[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE P[k - 1] + s[k] IN P[Len(s)]
Dot(u, x) == Plus([k \in DOMAIN u |-> u[k] * x[k]])
Abs(x) == IF x < 0 THEN -x ELSE x
\* what one mistake costs, at least, against what the weights u cost, as the kind of training has it; w: the weight of the class
Worth(u, w) == CASE model.kind = "hinge" -> Dot(u, u) * w[2] < 2 * model.c * w[1]
                 [] model.kind = "sparse" -> 2 * Plus([k \in DOMAIN u |-> Abs(u[k])]) * w[2] < 2 * model.c * w[1]
                 [] model.kind = "logistic" -> Len(model.rows) <= 12 /\ 24 * Dot(u, u) < model.c
\* class k against the rest
Beyond(u, k) == \A i \in DOMAIN model.rows : (IF model.labels[i] = k THEN 1 ELSE -1) * Dot(u, model.rows[i]) >= 1
Weights == {model.cw[i] : i \in DOMAIN model.cw}
Separable(U, k) == \E u \in U : Beyond(u, k) /\ \A w \in Weights : Worth(u, w)
AllSeparable(U) == \A k \in 0..model.classes - 1 : (\E i \in DOMAIN model.labels : model.labels[i] = k) /\ Separable(U, k)
\* rows with a single feature, always of size 1
OneHot(x) == Cardinality({k \in DOMAIN x : x[k] # 0}) = 1 /\ \A k \in DOMAIN x : x[k] \in {0, 1}
AllOneHot == \A i \in DOMAIN model.rows : OneHot(model.rows[i])
CountOf(x, k) == Cardinality({i \in DOMAIN model.rows : model.rows[i] = x /\ model.labels[i] = k})
====
