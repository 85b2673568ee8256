---- MODULE Pairwise ----
(* Distances and kernels on integer vectors, as exact integers: the Euclidean distance as its square,
   Canberra times 2520 (elements stay below 6, so every denominator divides it), cosine as the signed
   square of the dot product over the product of the squared lengths. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE SumOver(_, _)
SumOver(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumOver(f, n - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Dot(x, y) == SumOver([i \in 1..Len(x) |-> x[i] * y[i]], Len(x))
Norm2(x) == Dot(x, x)
SqEuclid(x, y) == SumOver([i \in 1..Len(x) |-> (x[i] - y[i]) * (x[i] - y[i])], Len(x))
ManhattanD(x, y) == SumOver([i \in 1..Len(x) |-> Abs(x[i] - y[i])], Len(x))
ChebyshevD(x, y) == LET S == {0} \cup {Abs(x[i] - y[i]) : i \in 1..Len(x)} IN CHOOSE m \in S : \A s \in S : s <= m
CanberraStep(a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE (2520 * Abs(a - b)) \div (Abs(a) + Abs(b))
CanberraD(x, y) == SumOver([i \in 1..Len(x) |-> CanberraStep(x[i], y[i])], Len(x))
SqDot(x, y) == Sgn(Dot(x, y)) * Dot(x, y) * Dot(x, y)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
PolyK(x, y, d) == Pow(Dot(x, y) + 1, d)
SqPolyD(x, y, d) == LET e == [i \in 1..Len(x) |-> x[i] - y[i]] IN PolyK(e, e, d)

Metrics == {"euclidean", "manhattan", "chebyshev", "canberra", "cosine"}
\* y is at most as far from x as z is
Closer(m, x, y, z) ==
  CASE m = "euclidean" -> SqEuclid(x, y) <= SqEuclid(x, z)
    [] m = "manhattan" -> ManhattanD(x, y) <= ManhattanD(x, z)
    [] m = "chebyshev" -> ChebyshevD(x, y) <= ChebyshevD(x, z)
    [] m = "canberra" -> CanberraD(x, y) <= CanberraD(x, z)
    [] m = "cosine" -> SqDot(x, y) * Norm2(z) >= SqDot(x, z) * Norm2(y)
\* the number by which a distance is recorded
Measure(m, x, y) ==
  CASE m = "euclidean" -> SqEuclid(x, y)
    [] m = "manhattan" -> ManhattanD(x, y)
    [] m = "chebyshev" -> ChebyshevD(x, y)
    [] m = "canberra" -> CanberraD(x, y)
    [] m = "cosine" -> SqDot(x, y)
====
