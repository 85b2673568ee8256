---- MODULE MCSeparator ----
(* Every small training set, and the weights of a grid which cost least: the claims of Separator. *)
EXTENDS Separator
CONSTANTS D, Rows, Cells, Grid, C,
          Signed   \* FALSE: predictions see the positive cells only
VARIABLES w, phase
vars == <<model, w, phase>>
MCells == -1..1
MGrid == -2..2
Vecs == [1..D -> Cells]
Ws == [1..D -> Grid]
Init == /\ \E n \in 1..Rows : \E r \in [1..n -> Vecs], lb \in [1..n -> {0, 1}], wt \in {<<<<1, 1>>, <<1, 1>>>>, <<<<1, 2>>, <<1, 1>>>>} :
             model = [kind |-> "hinge", c |-> C, cw |-> wt, rows |-> r, labels |-> lb, classes |-> 2]
        /\ w = [k \in 1..D |-> 0] /\ phase = "new"
Y(i) == IF model.labels[i] = 1 THEN 1 ELSE -1
\* twice the price, in halves
Price(v) == 2 * Dot(v, v) + Plus([i \in DOMAIN model.rows |->
              LET m == 1 - Y(i) * Dot(v, model.rows[i]) wt == model.cw[model.labels[i] + 1] IN IF m > 0 THEN (4 * C * wt[1] * m) \div wt[2] ELSE 0])
Train == /\ phase = "new" /\ phase' = "trained" /\ UNCHANGED model
         /\ w' \in {v \in Ws : \A o \in Ws : Price(v) <= Price(o)}
Spec == Init /\ [][Train]_vars
Seen(x) == IF Signed THEN x ELSE [k \in 1..D |-> IF x[k] > 0 THEN x[k] ELSE 0]
Answer(x) == IF Dot(w, Seen(x)) > 0 THEN 1 ELSE 0
Right == (phase = "trained" /\ Separable(Ws, 1)) => \A i \in DOMAIN model.rows : Answer(model.rows[i]) = model.labels[i]
Weighted(x, k) == LET wt == model.cw[k + 1] IN (2 * CountOf(x, k) * wt[1]) \div wt[2]
Majority == (phase = "trained" /\ AllOneHot) => \A i \in DOMAIN model.rows : LET x == model.rows[i] IN
              Weighted(x, 1) # Weighted(x, 0) => Answer(x) = IF Weighted(x, 1) > Weighted(x, 0) THEN 1 ELSE 0
====
