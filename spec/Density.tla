---- MODULE Density ----
(* Density-based clusters as a set partition. Points are integer vectors, distances as the metrics
   compute them; eps is given doubled, so that halves can be used. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Over(_, _, _)
Over(op(_, _), f, n) == IF n = 1 THEN f[1] ELSE op(Over(op, f, n - 1), f[n])
Near(metric, eps2, x, y) ==
  LET d == [i \in 1..Len(x) |-> Abs(x[i] - y[i])] IN
  CASE metric = "euclidean" -> 4 * Over(LAMBDA a, b : a + b, [i \in 1..Len(x) |-> d[i] * d[i]], Len(x)) <= eps2 * eps2
    [] metric = "manhattan" -> 2 * Over(LAMBDA a, b : a + b, d, Len(x)) <= eps2
    [] metric = "chebyshev" -> 2 * Over(LAMBDA a, b : IF a > b THEN a ELSE b, d, Len(x)) <= eps2
\* the neighbourhoods of all points, each point included
Hoods(pts, metric, eps2) == [p \in 1..Len(pts) |-> {q \in 1..Len(pts) : Near(metric, eps2, pts[p], pts[q])}]
Cores(nb, min) == {p \in DOMAIN nb : Cardinality(nb[p]) >= min}
RECURSIVE Reach(_, _, _)
Reach(nb, K, S) == LET T == TLCEval(S \cup (UNION {nb[p] : p \in S} \cap K)) IN IF T = S THEN S ELSE Reach(nb, K, T)
\* groups of core points linked by chains
RECURSIVE GroupsIn(_, _, _)
GroupsIn(nb, K, S) == IF S = {} THEN {} ELSE LET G == TLCEval(Reach(nb, K, {CHOOSE p \in S : TRUE})) IN {G} \cup GroupsIn(nb, K, S \ G)
Groups(nb, min) == LET K == TLCEval(Cores(nb, min)) IN GroupsIn(nb, K, K)
Around(nb, G) == UNION {nb[p] : p \in G}
\* cs: the set of clusters
Clustering(nb, min, cs) ==
  LET K == TLCEval(Cores(nb, min)) Gs == TLCEval(Groups(nb, min))
      In(G) == \E C \in cs : G \subseteq C
      Sole(G) == Around(nb, G) \ UNION {Around(nb, H) : H \in Gs \ {G}} IN
  /\ \A C \in cs : (\E G \in Gs : C \cap K = G /\ C \subseteq Around(nb, G)) = TRUE
  /\ \A C1, C2 \in cs : C1 = C2 \/ C1 \cap C2 = {}
  \* a group can only be missing when its border was shared out and too few points remained
  /\ \A G \in Gs : In(G) \/ Cardinality(Sole(G)) < min
  \* points near clusters all of which are there belong to one of them
  /\ \A p \in DOMAIN nb \ K : LET Hs == {G \in Gs : p \in Around(nb, G)} IN
        (Hs # {} /\ \A G \in Hs : In(G)) => (\E C \in cs : p \in C) = TRUE
====
