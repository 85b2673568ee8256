---- MODULE Threshold ----
(* A row is of the second class when its weighted sum reaches the threshold, else of the first. Weights are
   given in units of the threshold, 10^5 to one, known to within one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
One == 100000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _, _)
Sum(w, x, n) == IF n = 0 THEN 0 ELSE w[n] * x[n] + Sum(w, x, n - 1)
RECURSIVE Doubt(_, _)
Doubt(x, n) == IF n = 0 THEN 0 ELSE 2 * Abs(x[n]) + Doubt(x, n - 1)
Labels(w, x) == LET s == Sum(w, x, Len(w)) - One d == Doubt(x, Len(w)) IN IF s > d THEN {1} ELSE IF s < -d THEN {0} ELSE {0, 1}
====
