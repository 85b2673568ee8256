---- MODULE MCPairwise ----
(* The definitions themselves: symmetry, zero on the diagonal, and the metric inequalities. *)
EXTENDS Pairwise
CONSTANTS N, M
VARIABLES x, y, z
Vec == [1..N -> (-M)..M]
Init == x \in Vec /\ y \in Vec /\ z = x
Next == z = x /\ x' = x /\ y' = y /\ z' \in Vec
Spec == Init /\ [][Next]_<<x, y, z>>
Symmetric == \A m \in Metrics : Measure(m, x, y) = Measure(m, y, x)
Zero == \A m \in Metrics \ {"cosine"} : Measure(m, x, x) = 0 /\ (Measure(m, x, y) = 0 => x = y)
Self == Norm2(x) > 0 => SqDot(x, x) = Norm2(x) * Norm2(x)
CauchySchwarz == Abs(SqDot(x, y)) <= Norm2(x) * Norm2(y)
Triangle == /\ ManhattanD(x, y) <= ManhattanD(x, z) + ManhattanD(z, y)
            /\ ChebyshevD(x, y) <= ChebyshevD(x, z) + ChebyshevD(z, y)
            /\ CanberraD(x, y) <= CanberraD(x, z) + CanberraD(z, y) + 2
            /\ LET a == SqEuclid(x, y) b == SqEuclid(x, z) d == SqEuclid(z, y) IN a - b - d <= 0 \/ (a - b - d) * (a - b - d) <= 4 * b * d
Order == /\ ChebyshevD(x, y) <= ManhattanD(x, y)
         /\ ChebyshevD(x, y) * ChebyshevD(x, y) <= SqEuclid(x, y)
         /\ SqEuclid(x, y) <= ManhattanD(x, y) * ManhattanD(x, y)
KernelD == SqPolyD(x, y, 1) = SqEuclid(x, y) + 1
Parallelogram == SqEuclid(x, y) = Norm2(x) + Norm2(y) - 2 * Dot(x, y)
====
