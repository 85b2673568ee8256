---- MODULE TreeText ----
(* The printed form of a decision tree, and a reader who follows it by hand. A text is a sequence of lines
   [ind, kind, attr, thr2, op, key, ans]: a rule ("cat": the value of feature attr, "num": whether it is above
   half of thr2, or, with op "lt", at least that), the head of a branch of the rule standing at the same
   indentation above it, or a leaf and what it answers. What a branch leads to follows its head, one level deeper. *)
EXTENDS Integers, Sequences, FiniteSets
\* the branch a rule sends a row to: for numbers 1 when the printed condition does not hold, 0 when it does
KeyAt(t, i, x) == LET r == t[i] IN
  IF r.op = "eq" THEN x[r.attr]
  ELSE IF r.op = "le" THEN (IF 2 * x[r.attr] > r.thr2 THEN 1 ELSE 0)
  ELSE (IF 2 * x[r.attr] < r.thr2 THEN 0 ELSE 1)
\* the branch heads of the rule at line i
Heads(t, i) == {j \in (i + 1)..Len(t) : t[j].kind = "branch" /\ t[j].ind = t[i].ind
                  /\ \A m \in (i + 1)..(j - 1) : t[m].ind > t[i].ind \/ (t[m].ind = t[i].ind /\ t[m].kind = "branch")}
Matching(t, i, x) == {j \in Heads(t, i) : t[j].key = KeyAt(t, i, x)}
\* the lines a reader at rule i may go on from: below the head that matches, or below any when none does
Onward(t, i, x) == {j + 1 : j \in IF Matching(t, i, x) # {} THEN Matching(t, i, x) ELSE Heads(t, i)}
RECURSIVE Read(_, _, _)
Read(t, i, x) == IF t[i].kind = "leaf" THEN {t[i].ans} ELSE UNION {Read(t, j, x) : j \in Onward(t, i, x)}
\* A text one can follow: it starts with the root, every line belongs to what stands above it, no branch is there twice.
Legible(t) ==
  /\ Len(t) > 0 /\ t[1].ind = 0 /\ t[1].kind # "branch"
  /\ \A i \in 1..Len(t) :
       /\ t[i].kind \in {"rule", "branch", "leaf"}
       /\ t[i].kind = "rule" => Heads(t, i) # {} /\ i < Len(t) /\ t[i + 1].kind = "branch"
                                /\ \A j, k \in Heads(t, i) : t[j].key = t[k].key => j = k
       /\ t[i].kind = "branch" => i < Len(t) /\ t[i + 1].kind # "branch" /\ t[i + 1].ind = t[i].ind + 1 /\ \E j \in 1..(i - 1) : t[j].kind = "rule" /\ i \in Heads(t, j)
       /\ (t[i].kind # "branch" /\ i > 1) => t[i - 1].kind = "branch"
\* what a reader may take the answer for a row to be
MaySay(t, x, a, tol) == \E b \in Read(t, 1, x) : a - b <= tol /\ b - a <= tol
\* Several trees vote; a tree without a branch for the row may vote for any of what it can be read as.
Sure(ts, x, a) == Cardinality({k \in 1..Len(ts) : Read(ts[k], 1, x) = {a}})
Possible(ts, x, a) == Cardinality({k \in 1..Len(ts) : a \in Read(ts[k], 1, x)})
MayElect(ts, x, a) == Possible(ts, x, a) > 0 /\ \A b \in UNION {Read(ts[k], 1, x) : k \in 1..Len(ts)} : Possible(ts, x, a) >= Sure(ts, x, b)
====
