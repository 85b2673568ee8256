---- MODULE MCPca ----
(* Two features, and directions with whole-numbered sides (1,0), (3,4)/5, (1,1)/sqrt 2 ...: for every small data
   set one of whose bases satisfies the equations of Pca exactly, that basis has the properties claimed. *)
EXTENDS Pca, TLC
CONSTANTS Rows, V, Dirs,
          Centre   \* FALSE: rows are projected without taking the mean off
VARIABLES phase, out
vars == <<pvars, phase, out>>
MDirs == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<-1, 1>>, <<1, 2>>, <<-2, 1>>, <<3, 4>>, <<-4, 3>>}
LargeDirs == {<<x, y>> \in (-4..4) \X (0..4) : x # 0 \/ y # 0}
Init == /\ data \in UNION {[1..n -> [1..2 -> V]] : n \in 2..Rows} /\ axes = <<>> /\ phase = "new" /\ out = <<>>
Turn(v) == <<0 - v[2], v[1]>>
Parallel(M, v) == LET w == Apply(M, v) IN w[1] * v[2] = w[2] * v[1]
Var(M, v) == Dot(v, Apply(M, v))      \* times the square of v's length
\* the two directions have the same length, so that variances along them compare
Fit == /\ phase = "new" /\ phase' = "fitted" /\ UNCHANGED <<data, out>>
       /\ LET M == TLCEval(A) IN \E v \in Dirs : Parallel(M, v) /\ Var(M, v) >= Var(M, Turn(v)) /\ axes' = <<v, Turn(v)>>
Project(x, v) == IF Centre THEN Dot(Centred(x), v) ELSE Len(data) * Dot(x, v)
Transform == /\ phase = "fitted" /\ phase' = "done" /\ UNCHANGED pvars
             /\ out' = [i \in DOMAIN data |-> [a \in 1..2 |-> Project(data[i], axes[a])]]
Spec == Init /\ [][Fit \/ Transform]_vars
Col(a) == [i \in DOMAIN data |-> out[i][a]]
Balanced == phase = "done" => \A a \in 1..2 : Plus(Col(a)) = 0
Uncorrelated == phase = "done" => Dot(Col(1), Col(2)) = 0
\* variance along the first direction is the greatest there is
Leading == phase = "fitted" => LET M == TLCEval(A) IN \A u \in Dirs : Var(M, u) * Dot(axes[1], axes[1]) <= Var(M, axes[1]) * Dot(u, u)
\* nothing is lost: distances from the mean stay
Isometry == phase = "done" => \A i \in DOMAIN data : Dot(out[i], out[i]) = Dot(axes[1], axes[1]) * Dot(Centred(data[i]), Centred(data[i]))
====
