---- MODULE TracePca ----
EXTENDS Pca, TraceKit
S == 1000
VARIABLE asked
tvars == <<pvars, asked>>
TraceInit == CaseInit /\ data = <<>> /\ axes = <<>> /\ asked = 0
Kept == Ev.after = Ev.rows
TFit == IsEvent("Fit") /\ data' = Ev.rows /\ axes' = <<>> /\ asked' = Ev.k /\ Kept
Grid(d) == [1..d -> {0 - 2, 0 - 1, 0, 1, 2}]
Fine(x) == x > -1000000 /\ x < 1000000
\* lambda[a]: variance along direction a, a hundred times over
Axes(v, k) ==
  LET M == TLCEval(A)
      total == TLCEval(Plus([j \in 1..Dims |-> Plus([m \in 1..Dims |-> Abs(M[j][m])])]))
      av == TLCEval([a \in DOMAIN v |-> Apply(M, v[a])])
      lambda == TLCEval([a \in DOMAIN v |-> Plus([j \in 1..Dims |-> v[a][j] * (av[a][j] \div 10)]) \div 1000])
      last == lambda[Len(v)]
  IN /\ Len(v) = Given(k) /\ \A a \in DOMAIN v : Len(v[a]) = Dims /\ \A j \in 1..Dims : Fine(v[a][j])
     \* perpendicular, and of length 1
     /\ \A a, b \in DOMAIN v : Abs(Dot(v[a], v[b]) - IF a = b THEN S * S ELSE 0) <= 4 * S * Dims
     \* each is a direction in which the scatter only stretches
     /\ \A a \in DOMAIN v, j \in 1..Dims : Abs(100 * av[a][j] - lambda[a] * v[a][j]) <= 400 * total + 200000
     \* by decreasing variance
     /\ \A a \in DOMAIN v : a > 1 => lambda[a] <= lambda[a - 1] + 2 * total + 100
     \* what the directions leave over varies nowhere more than along the last of them
     /\ \A u \in Grid(Dims) : LET n == Dot(u, u) IN
          Dot(u, Apply(M, u)) - Plus([a \in DOMAIN v |-> LET p == Dot(v[a], u) IN (lambda[a] * ((p * p) \div 10000)) \div 10000])
            <= (last * n) \div 100 + (total * n) \div 10 + 2 * Dims
TAxes == IsEvent("Axes") /\ axes' = Ev.axes /\ UNCHANGED <<data, asked>> /\ (Axes(Ev.axes, asked) = TRUE)
\* a row's coordinates are its distances from the mean along the directions
Coordinates(x, y) ==
  /\ Len(y) = Len(axes)
  /\ LET z == Centred(x) IN \A a \in DOMAIN axes :
       Fine(y[a]) /\ Abs(Len(data) * y[a] - Dot(z, axes[a])) <= 2 * Len(data) + 2 * Plus([j \in DOMAIN z |-> Abs(z[j])])
TTransform == /\ IsEvent("Transform") /\ UNCHANGED tvars /\ Kept
              /\ (Len(Ev.out) = Len(Ev.rows) /\ \A i \in DOMAIN Ev.rows : Coordinates(Ev.rows[i], Ev.out[i])) = TRUE
TraceNext == TFit \/ TAxes \/ TTransform
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, c, l>>
====
