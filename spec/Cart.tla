---- MODULE Cart ----
(* Classification and regression trees grown greedily by the weighted loss of binary splits.
   D as in Trees, all attributes numeric; D.cls holds classes or target values.
   A node is [feat, thr2, ll, rl, left, right]: values below the threshold go left; left/right are 0
   where the branch is a leaf, which answers ll/rl. A tree without a split is a single node. *)
EXTENDS Trees
Classifies(crit) == crit \in {"gini", "entropy"}
Targets(D, S) == SumOf(D.cls, S)
Abs(n) == IF n < 0 THEN -n ELSE n
\* loss of a set of rows times its size, scaled
LossN(crit, D, S) ==
  IF S = {} THEN 0 ELSE
  CASE crit = "gini" -> 1000000 * Cardinality(S) - GiniOf(D, S)
    [] crit = "entropy" -> Mixed(D, S)
    [] crit = "mse" -> 10000 * SumOf([r \in S |-> D.cls[r] * D.cls[r]], S) - (10000 * Targets(D, S) * Targets(D, S)) \div Cardinality(S)
    [] crit = "mae" -> LET n == Cardinality(S) t == Targets(D, S) IN (10000 * SumOf([r \in S |-> Abs(n * D.cls[r] - t)], S)) \div n
LTol == 40
SplitLoss(crit, D, S, f, v) == LossN(crit, D, {r \in S : D.rows[r][f] <= v}) + LossN(crit, D, {r \in S : D.rows[r][f] > v})
Losses(crit, D, S) == TLCEval(UNION {{SplitLoss(crit, D, S, f, v) : v \in Cuts(D, S, f)} : f \in Attrs(D)})
Improvable(crit, D, S) == \E x \in Losses(crit, D, S) : x < LossN(crit, D, S) - LTol
CMayStop(crit, lim, D, S, depth) == (lim # -1 /\ depth > lim) \/ ~Improvable(crit, D, S)
Scale == 360360
LabelOK(crit, D, S, y) ==
  IF Classifies(crit) THEN \A k \in Classes(D, S) : Cardinality({r \in S : D.cls[r] = y}) >= Cardinality({r \in S : D.cls[r] = k})
  ELSE y * Cardinality(S) = Scale * Targets(D, S)
GoesLeft(n, x) == 2 * x[n.feat] < n.thr2
RECURSIVE CGrown(_, _, _, _, _, _, _)
CGrown(crit, lim, D, T, i, S, depth) ==
  LET n == T[i]
      L == TLCEval({r \in S : GoesLeft(n, D.rows[r])})
      R == TLCEval(S \ L)
      mine == TLCEval(LossN(crit, D, L) + LossN(crit, D, R)) IN
  /\ lim = -1 \/ depth <= lim
  /\ L # {} /\ R # {}
  /\ \A x \in Losses(crit, D, S) : mine <= x + LTol
  /\ mine <= LossN(crit, D, S) + LTol
  /\ LabelOK(crit, D, L, n.ll) /\ LabelOK(crit, D, R, n.rl)
  /\ IF n.left = 0 THEN CMayStop(crit, lim, D, L, depth + 1) ELSE CGrown(crit, lim, D, T, n.left, L, depth + 1)
  /\ IF n.right = 0 THEN CMayStop(crit, lim, D, R, depth + 1) ELSE CGrown(crit, lim, D, T, n.right, R, depth + 1)
CTree(crit, lim, D, T) ==
  IF Len(T) = 1 /\ T[1].ll = T[1].rl /\ LabelOK(crit, D, All(D), T[1].ll) /\ CMayStop(crit, lim, D, All(D), 1) THEN TRUE
  ELSE CGrown(crit, lim, D, T, 1, All(D), 1)
RECURSIVE CAnswer(_, _, _)
CAnswer(T, i, x) == LET n == T[i] IN
  IF GoesLeft(n, x) THEN (IF n.left = 0 THEN n.ll ELSE CAnswer(T, n.left, x)) ELSE (IF n.right = 0 THEN n.rl ELSE CAnswer(T, n.right, x))
====
