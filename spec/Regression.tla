---- MODULE Regression ----
(* Least squares: coefficients are known S times over, to the nearest whole number, so that equations hold
   up to what that rounding can do. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES train,   \* the training rows: sequence of [x : cells, y : value]
          coef     \* <<intercept, b1, ..., bd>>, S times over
rvars == <<train, coef>>
Abs(x) == IF x < 0 THEN -x ELSE x
Plus(s) == LET P[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE P[k - 1] + s[k] IN P[Len(s)]
Full(x) == <<1>> \o x          \* with the intercept's column
At(b, x) == LET f == Full(x) IN Plus([k \in DOMAIN f |-> b[k] * f[k]])
Size(x) == LET f == Full(x) IN Plus([k \in DOMAIN f |-> Abs(f[k])])
\* the residuals are orthogonal to the intercept's column and to every feature, within slack per unit of a row's size
Orthogonal(b, S, slack) ==
  \A j \in DOMAIN b :
    LET col == [i \in DOMAIN train |-> Full(train[i].x)[j]]
    IN Abs(Plus([i \in DOMAIN train |-> col[i] * (S * train[i].y - At(b, train[i].x))]))
       <= slack * Plus([i \in DOMAIN train |-> Abs(col[i]) * Size(train[i].x)])
Enough(rows) == rows # <<>> /\ Len(rows) >= Len(rows[1].x) + 1
\* rows which lie on the plane w
On(w) == \A i \in DOMAIN train : train[i].y = At(w, train[i].x)
====
