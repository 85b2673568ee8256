---- MODULE Neighbours ----
(* Which k of the stored rows may count as the nearest to a target, and what votes and means follow.
   Distance ties make several answers right: the rows strictly nearer than the k-th are always in,
   and the rest are any of those at the k-th distance. *)
EXTENDS Pairwise
Idx(rows) == 1..Len(rows)
\* m: metric, t: target
Nearer(m, t, rows, i, j) == Closer(m, t, rows[i], rows[j]) /\ ~Closer(m, t, rows[j], rows[i])
IsNearest(m, t, rows, k, S) == /\ S \subseteq Idx(rows) /\ Cardinality(S) = k
                               /\ \A i \in S, j \in Idx(rows) \ S : ~Nearer(m, t, rows, j, i)
\* The distance of every row by a number (cosine: a fraction) that orders as the distances do.
Key(m, t, y) == IF m = "cosine" THEN <<SqDot(t, y), Norm2(y)>> ELSE Measure(m, t, y)
KeyLE(m, a, b) == IF m = "cosine" THEN a[1] * b[2] >= b[1] * a[2] ELSE a <= b
Keys(m, t, rows) == TLCEval([i \in Idx(rows) |-> Key(m, t, rows[i])])
\* The key of the k-th nearest.
Kth(m, D, k) == CHOOSE v \in {D[i] : i \in DOMAIN D} :
   /\ Cardinality({i \in DOMAIN D : ~KeyLE(m, v, D[i])}) < k
   /\ Cardinality({i \in DOMAIN D : KeyLE(m, D[i], v)}) >= k
\* Rows strictly nearer than the k-th are in whatever happens; of those as near as the k-th, any may be.
SureOf(m, D, v) == {i \in DOMAIN D : ~KeyLE(m, v, D[i])}
TiesOf(m, D, v) == {i \in DOMAIN D : KeyLE(m, D[i], v) /\ KeyLE(m, v, D[i])}
KSubsets(S, n) == {T \in SUBSET S : Cardinality(T) = n}
Nearest(m, t, rows, k) == LET D == Keys(m, t, rows)
                              v == TLCEval(Kth(m, D, k))
                              s == TLCEval(SureOf(m, D, v))
                              ties == TLCEval(TiesOf(m, D, v)) IN
                          {s \cup T : T \in KSubsets(ties, k - Cardinality(s))}
\* The same as IsNearest, comparing the farthest chosen with the nearest left out.
IsNearestFast(m, t, rows, k, S) ==
  /\ S \subseteq Idx(rows) /\ Cardinality(S) = k
  /\ LET D == Keys(m, t, rows)
         v == TLCEval(Kth(m, D, k)) IN
     /\ \A i \in S : KeyLE(m, D[i], v)
     /\ SureOf(m, D, v) \subseteq S
Votes(cls, S, c) == Cardinality({i \in S : cls[i] = c})
Majority(cls, S, c) == \A d \in {cls[i] : i \in S} : Votes(cls, S, c) >= Votes(cls, S, d)
\* Square root rounded down.
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET mid == (lo + hi) \div 2 IN IF mid * mid <= n THEN Root(n, mid, hi) ELSE Root(n, lo, mid)
ISqrt(n) == Root(n, 0, 46340)
\* Weight of a neighbour: the inverse of its distance, in millionths, or -1 for distance 0.
\* Cosine weights are exact for vectors of whole length.
Weight(m, t, y) ==
  CASE m = "manhattan" -> LET d == ManhattanD(t, y) IN IF d = 0 THEN -1 ELSE 1000000 \div d
    [] m = "euclidean" -> LET d == SqEuclid(t, y) IN IF d = 0 THEN -1 ELSE 1000000000 \div ISqrt(1000000 * d)
    [] m = "cosine" -> LET xy == ISqrt(Norm2(t)) * ISqrt(Norm2(y)) IN IF xy = Dot(t, y) THEN -1 ELSE (xy * 1000000) \div (xy - Dot(t, y))
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumSet(f, S \ {i})
\* A class that may win the weighted vote. Rows at distance 0 outweigh all others; totals within a thousandth count as even.
Heaviest(m, t, rows, cls, S, c) ==
  LET w == TLCEval([i \in S |-> Weight(m, t, rows[i])])
      zero == {i \in S : w[i] = -1} IN
  IF zero # {} THEN c \in {cls[i] : i \in zero}
  ELSE LET tot(d) == SumSet(w, {i \in S : cls[i] = d})
           mine == tot(c) IN
       \A d \in {cls[i] : i \in S} : mine + mine \div 1000 + 10 >= tot(d)
\* Unweighted: is there a choice of r of the ties by which c gets the most votes? c may as well take all it can;
\* the others may take up to c's total each.
MinOf(a, b) == IF a < b THEN a ELSE b
MayWin(cls, sure, ties, r, c) ==
  LET x == MinOf(Votes(cls, ties, c), r)
      top == Votes(cls, sure, c) + x
      others == {cls[i] : i \in sure \cup ties} \ {c}
      room == TLCEval([d \in others |-> MinOf(Votes(cls, ties, d), top - Votes(cls, sure, d))]) IN
  /\ top > 0
  /\ \A d \in others : Votes(cls, sure, d) <= top
  /\ SumSet(room, others) >= r - x
\* Weighted: every tie weighs the same, w.
MayOutweigh(m, t, rows, cls, sure, ties, r, c) ==
  LET sw == TLCEval([i \in sure |-> Weight(m, t, rows[i])])
      zeros == {i \in sure : sw[i] = -1}
      w == TLCEval(Weight(m, t, rows[CHOOSE i \in ties : TRUE])) IN
  IF zeros # {} THEN c \in {cls[i] : i \in zeros}
  ELSE IF w = -1 THEN c \in {cls[i] : i \in ties}
  ELSE LET held(d) == SumSet(sw, {i \in sure : cls[i] = d})
           x == MinOf(Votes(cls, ties, c), r)
           mine == held(c) + x * w
           top == mine + mine \div 1000 + 10
           others == {cls[i] : i \in sure \cup ties} \ {c}
           room == TLCEval([d \in others |-> IF held(d) > top THEN -1 ELSE MinOf(Votes(cls, ties, d), (top - held(d)) \div w)]) IN
       /\ mine > 0
       /\ \A d \in others : room[d] >= 0
       /\ SumSet(room, others) >= r - x
----
\* What the classifier and the regressor may answer.
MayPredict(m, t, rows, cls, k, weighted, c) ==
  LET D == Keys(m, t, rows)
      v == TLCEval(Kth(m, D, k))
      sure == TLCEval(SureOf(m, D, v))
      ties == TLCEval(TiesOf(m, D, v))
      r == k - Cardinality(sure) IN
  IF weighted THEN MayOutweigh(m, t, rows, cls, sure, ties, r, c) ELSE MayWin(cls, sure, ties, r, c)
\* the same, trying every choice
MayPredictSlow(m, t, rows, cls, k, weighted, c) ==
  \E S \in Nearest(m, t, rows, k) : IF weighted THEN Heaviest(m, t, rows, cls, S, c) ELSE \E i \in S : cls[i] = c /\ Majority(cls, S, c)
\* mean times k
MayAverage(m, t, rows, vals, k, sum) == \E S \in Nearest(m, t, rows, k) : sum = SumSet(vals, S)
====
