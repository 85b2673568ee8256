---- MODULE NaiveBayes ----
(* Bernoulli naive Bayes in whole numbers. A class with n of the N rows, k of them with a feature, gives the
   feature the weight k + 1 over n + 1 when present, and n - k over n + 1 when absent, or 1 over n + 1 when
   every row of the class has it. Scores of classes are compared as fractions. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES train    \* the training rows: sequence of [f : sequence of 0/1, c : label]
Count(S) == Cardinality(S)
Classes == {train[i].c : i \in DOMAIN train}
N(c) == Count({i \in DOMAIN train : train[i].c = c})
K(c, j) == Count({i \in DOMAIN train : train[i].c = c /\ train[i].f[j] = 1})
Term(c, j, x) == IF x = 1 THEN K(c, j) + 1 ELSE IF K(c, j) = N(c) THEN 1 ELSE N(c) - K(c, j)
Times(s) == LET P[k \in 0..Len(s)] == IF k = 0 THEN 1 ELSE P[k - 1] * s[k] IN P[Len(s)]
Pow(b, k) == Times([i \in 1..k |-> b])
\* c is a class of highest posterior for the row x. Features by which the two classes weigh the same don't matter
\* (and leaving them out keeps the numbers small).
Beats(c, d, x) == LET n == N(c) m == N(d)
                      J == SelectSeq([j \in 1..Len(x) |-> <<Term(c, j, x[j]), Term(d, j, x[j])>>], LAMBDA p : p[1] * (m + 1) # p[2] * (n + 1)) IN
                  n * Times([i \in DOMAIN J |-> J[i][1]]) * Pow(m + 1, Len(J)) >= m * Times([i \in DOMAIN J |-> J[i][2]]) * Pow(n + 1, Len(J))
Best(c, x) == c \in Classes /\ \A d \in Classes : Beats(c, d, x)
====
