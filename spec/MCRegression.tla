---- MODULE MCRegression ----
(* One feature, in exact fractions: the sums gathered row by row, and what solving them gives, for every small
   training set: it satisfies the equations of Regression, and those who satisfy them have the least squares. *)
EXTENDS Regression
CONSTANTS Rows, V, Try, Intercept   \* Intercept = FALSE: the line is forced through the origin
VARIABLES i, sx, sy, sxx, sxy, phase
vars == <<rvars, i, sx, sy, sxx, sxy, phase>>
Init == /\ train \in UNION {[1..n -> [x : {<<v>> : v \in V}, y : V]] : n \in 2..Rows}
        /\ coef = <<0, 0>> /\ i = 1 /\ sx = 0 /\ sy = 0 /\ sxx = 0 /\ sxy = 0 /\ phase = "sum"
Row == /\ phase = "sum" /\ i <= Len(train)
       /\ LET r == train[i] IN sx' = sx + r.x[1] /\ sy' = sy + r.y /\ sxx' = sxx + r.x[1] * r.x[1] /\ sxy' = sxy + r.x[1] * r.y
       /\ i' = i + 1 /\ UNCHANGED <<train, coef, phase>>
D == IF Intercept THEN Len(train) * sxx - sx * sx ELSE sxx
Solve == /\ phase = "sum" /\ i > Len(train) /\ phase' = "done"
         /\ coef' = IF Intercept THEN <<sxx * sy - sx * sxy, Len(train) * sxy - sx * sy>> ELSE <<0, sxy>>
         /\ UNCHANGED <<train, i, sx, sy, sxx, sxy>>
Spec == Init /\ [][Row \/ Solve]_vars
Err(b, S) == Plus([k \in DOMAIN train |-> (S * train[k].y - At(b, train[k].x)) * (S * train[k].y - At(b, train[k].x))])
Fitted == phase = "done" /\ Len(train) * sxx # sx * sx
Solved == Fitted => Orthogonal(coef, D, 0)
Least == (Fitted /\ Orthogonal(coef, D, 0)) => \A a0, a1 \in Try : Err(coef, D) <= Err(<<D * a0, D * a1>>, D)
Plane == Fitted => \A a0, a1 \in Try : On(<<a0, a1>>) => coef = <<D * a0, D * a1>>
====
