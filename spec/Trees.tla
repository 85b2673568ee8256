---- MODULE Trees ----
(* Decision trees: what a grown tree must look like for its training rows, how rows are answered, what
   pruning may do, and which attribute and threshold a split rule may choose.
   D is a data set [typ, rows, cls]: typ[a] is "cat" or "num", rows are vectors of integers, classes 1..n.
   A tree is a sequence of nodes [attr, thr2, dist, cls, kids]; node 1 is the root. thr2 is twice the
   threshold of a numeric split, kids the branches [key, id]; a leaf has none. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min2(a, b) == IF a < b THEN a ELSE b
Attrs(D) == 1..Len(D.typ)
All(D) == 1..Len(D.rows)
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumOf(f, S \ {i})
Vals(D, S, a) == {D.rows[r][a] : r \in S}
Classes(D, S) == {D.cls[r] : r \in S}
\* the branch of node n for a row
Key(typ, n, x) == IF typ[n.attr] = "num" THEN (IF 2 * x[n.attr] > n.thr2 THEN 1 ELSE 0) ELSE x[n.attr]
Keys(n) == {n.kids[j].key : j \in 1..Len(n.kids)}
Kid(n, key) == n.kids[CHOOSE j \in 1..Len(n.kids) : n.kids[j].key = key].id
MostFrequent(n) == n.cls \in 1..Len(n.dist) /\ \A k \in 1..Len(n.dist) : n.dist[n.cls] >= n.dist[k]
Constant(D, S, a) == Cardinality(Vals(D, S, a)) = 1
\* Growing may stop at one class, or when none of the attributes looked at (k of them) divides the rows.
MayStop(D, S, As, k) == Cardinality(Classes(D, S)) = 1 \/ Cardinality({a \in As : Constant(D, S, a)}) >= Min2(k, Cardinality(As))
RECURSIVE Grown(_, _, _, _, _, _)
Grown(D, T, i, S, As, k) ==
  LET n == T[i] IN
  /\ \A c \in 1..Len(n.dist) : n.dist[c] = Cardinality({r \in S : D.cls[r] = c})
  /\ MostFrequent(n)
  /\ IF n.kids = <<>> THEN MayStop(D, S, As, k)
     ELSE /\ n.attr \in As
          /\ Cardinality(Keys(n)) = Len(n.kids)
          /\ Keys(n) = {Key(D.typ, n, D.rows[r]) : r \in S}
          /\ \A j \in 1..Len(n.kids) :
                Grown(D, T, n.kids[j].id, TLCEval({r \in S : Key(D.typ, n, D.rows[r]) = n.kids[j].key}), As \ {n.attr}, k)
\* The leaves that may answer for a row: any, below a node which has no branch for its value.
RECURSIVE LeavesOf(_, _, _, _)
LeavesOf(typ, T, i, x) ==
  IF T[i].kids = <<>> THEN {i}
  ELSE LET key == Key(typ, T[i], x) IN
       IF key \in Keys(T[i]) THEN LeavesOf(typ, T, Kid(T[i], key), x)
       ELSE UNION {LeavesOf(typ, T, T[i].kids[j].id, x) : j \in 1..Len(T[i].kids)}
MayAnswer(typ, T, x, c) == \E i \in LeavesOf(typ, T, 1, x) : T[i].cls = c
\* Some leaf of U was an inner node of T; nothing else differs.
RECURSIVE PrunedFrom(_, _, _, _)
PrunedFrom(T, i, U, j) ==
  /\ T[i].dist = U[j].dist /\ T[i].cls = U[j].cls
  /\ \/ U[j].kids = <<>>
     \/ /\ T[i].kids # <<>> /\ T[i].attr = U[j].attr /\ T[i].thr2 = U[j].thr2 /\ Keys(T[i]) = Keys(U[j])
        /\ Len(U[j].kids) = Len(T[i].kids)
        /\ \A key \in Keys(T[i]) : PrunedFrom(T, Kid(T[i], key), U, Kid(U[j], key))
Right(cls, got) == Cardinality({i \in 1..Len(cls) : cls[i] = got[i]})
\* Correct answers of the subtree at i for the rows S (which meet no unseen value).
RightBelow(D, T, i, S) == Cardinality({r \in S : T[CHOOSE j \in LeavesOf(D.typ, T, i, D.rows[r]) : TRUE].cls = D.cls[r]})
AllSeen(D, T) == \A r \in All(D) : Cardinality(LeavesOf(D.typ, T, 1, D.rows[r])) = 1
\* every inner node left does better than it would as a leaf
RECURSIVE Earned(_, _, _, _)
Earned(D, T, i, S) == T[i].kids = <<>> \/ S = {} \/
  /\ RightBelow(D, T, i, S) > Cardinality({r \in S : T[i].cls = D.cls[r]})
  /\ \A j \in 1..Len(T[i].kids) : Earned(D, T, T[i].kids[j].id, {r \in S : Key(D.typ, T[i], D.rows[r]) = T[i].kids[j].key})
----
\* Scores of splits. n * log2 n in millionths.
XTable == <<0, 2000000, 4754888, 8000000, 11609640, 15509775, 19651484, 24000000, 28529325, 33219281, 38053748, 43019550, 48105716,
  53302969, 58603359, 64000000, 69486868, 75058650, 80710623, 86438562, 92238666, 98107496, 104041925, 110039100>>
XLX(n) == IF n = 0 THEN 0 ELSE XTable[n]
Near(a, b, t) == a - b <= t /\ b - a <= t
ASSUME \A n \in 1..12 : Near(XLX(2 * n), 2 * XLX(n) + 2000000 * n, 2)
ASSUME \A n \in 1..8 : Near(XLX(3 * n), 3 * XLX(n) + n * XLX(3), 2 + n)
ASSUME \A n \in 1..4 : Near(XLX(5 * n), 5 * XLX(n) + n * XLX(5), 3 + n)
Tol == 30
\* rows with value at most v go left
Part(D, a, v, r) == IF D.typ[a] = "num" THEN (IF D.rows[r][a] > v THEN 1 ELSE 0) ELSE D.rows[r][a]
Cuts(D, S, a) == LET V == Vals(D, S, a) IN IF D.typ[a] = "num" THEN {v \in V : \E w \in V : w > v} ELSE {0}
Blocks(D, S, a, v) == {{r \in S : Part(D, a, v, r) = p} : p \in {Part(D, a, v, r) : r \in S}}
Mixed(D, B) == XLX(Cardinality(B)) - SumOf([c \in Classes(D, B) |-> XLX(Cardinality({r \in B : D.cls[r] = c}))], Classes(D, B))
\* entropy after the split, and of the split itself, times the number of rows
Entropy(D, S, a, v) == LET Bs == Blocks(D, S, a, v) IN SumOf([B \in Bs |-> Mixed(D, B)], Bs)
Intrinsic(D, S, a, v) == LET Bs == Blocks(D, S, a, v) IN XLX(Cardinality(S)) - SumOf([B \in Bs |-> XLX(Cardinality(B))], Bs)
\* g / s in millionths, digit by digit
RECURSIVE Digits(_, _, _, _)
Digits(g, s, d, acc) == IF d = 0 THEN acc ELSE Digits((g % s) * 10, s, d - 1, 10 * acc + (g \div s))
Ratio(g, s) == IF s = 0 THEN 0 ELSE IF g < 0 THEN 0 ELSE Digits(g, s, 7, 0)
GiniOf(D, B) == (1000000 * SumOf([c \in Classes(D, B) |-> Cardinality({r \in B : D.cls[r] = c}) * Cardinality({r \in B : D.cls[r] = c})], Classes(D, B))) \div Cardinality(B)
Score(rule, D, S, a, v) ==
  CASE rule = "gini" -> LET Bs == Blocks(D, S, a, v) IN SumOf([B \in Bs |-> GiniOf(D, B)], Bs)
    [] rule = "ratio" -> Ratio(Mixed(D, S) - Entropy(D, S, a, v), Intrinsic(D, S, a, v))
    [] rule = "gain" -> Mixed(D, S) - Entropy(D, S, a, v)
\* thresholds of least entropy
BestCuts(D, S, a) == LET C == Cuts(D, S, a) e == TLCEval([v \in C |-> Entropy(D, S, a, v)]) IN {v \in C : \A w \in C : e[v] <= e[w] + Tol}
CutAt(D, S, a, thr2) == IF D.typ[a] = "cat" THEN {0} ELSE {v \in BestCuts(D, S, a) : 2 * v <= thr2 /\ \A w \in Vals(D, S, a) : w > v => 2 * w > thr2}
Beats(rule, D, S, b, a, v) == LET C == BestCuts(D, S, b) mine == TLCEval(Score(rule, D, S, a, v)) IN C # {} /\ \A w \in C : Score(rule, D, S, b, w) > mine + Tol
\* The rule looked at k of the attributes As (any k) and found a to be best; a = 0: none divides the rows.
MayChoose(rule, k, D, S, As, a, thr2) ==
  IF a = 0 THEN Cardinality({b \in As : Constant(D, S, b)}) >= Min2(k, Cardinality(As))
  ELSE /\ a \in As
       /\ \E v \in CutAt(D, S, a, thr2) :
            Cardinality({b \in As \ {a} : Beats(rule, D, S, b, a, v)}) <= Cardinality(As) - Min2(k, Cardinality(As))
\* Attributes which are no help beside b, wherever they divide the rows.
Weaker(rule, D, S, b, As) == {a \in As \ {b} : \A v \in BestCuts(D, S, a) : Beats(rule, D, S, b, a, v)}
\* Asked again and again, looking at k attributes drawn each time: picked are those found to be best. Only what is best
\* of k attributes is, and everything that is surely best of some k is at some time.
Drawn(rule, k, D, S, As, picked) ==
  /\ \A p \in picked : MayChoose(rule, k, D, S, As, p.attr, p.thr2)
  /\ \A b \in As : (Cardinality(Weaker(rule, D, S, b, As)) >= Min2(k, Cardinality(As)) - 1
                   /\ \E v \in BestCuts(D, S, b) : Score(rule, D, S, b, v) > 1000) => \E p \in picked : p.attr = b
RECURSIVE Chosen(_, _, _, _, _, _, _)
Chosen(rule, k, D, T, i, S, As) ==
  LET n == T[i] IN
  n.kids = <<>> \/
  /\ MayChoose(rule, k, D, S, As, n.attr, n.thr2)
  /\ \A j \in 1..Len(n.kids) : Chosen(rule, k, D, T, n.kids[j].id, TLCEval({r \in S : Key(D.typ, n, D.rows[r]) = n.kids[j].key}), As \ {n.attr})
====
