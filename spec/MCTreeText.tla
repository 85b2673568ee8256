---- MODULE MCTreeText ----
(* Every small tree, printed and followed line by line for every row: the reader arrives at the tree's own answer.
   Feature 1 is a number, feature 2 a value of Labels. *)
EXTENDS TreeText
CONSTANTS Nums, Labels, Thrs, Depth,
          Indent   \* FALSE: a printer that does not show which branch belongs to which rule
VARIABLES tree, text, row, at
vars == <<tree, text, row, at>>
Leaf(c) == [attr |-> 0, op |-> "", thr2 |-> 0, ans |-> c, kids |-> <<>>]
RECURSIVE TreesOf(_)
TreesOf(d) == IF d = 0 THEN {Leaf(c) : c \in 1..2} ELSE
  LET S == TreesOf(d - 1) IN {Leaf(c) : c \in 1..2}
    \cup {[attr |-> 1, op |-> o, thr2 |-> h, ans |-> 0, kids |-> <<<<0, a>>, <<1, b>>>>] : o \in {"le", "lt"}, h \in Thrs, a \in S, b \in S}
    \cup {[attr |-> 2, op |-> "eq", thr2 |-> 0, ans |-> 0, kids |-> <<<<k, a>>>>] : k \in Labels, a \in S}
    \cup {[attr |-> 2, op |-> "eq", thr2 |-> 0, ans |-> 0, kids |-> <<<<k, a>>, <<k + 1, b>>>>] : k \in {k \in Labels : k + 1 \in Labels}, a \in S, b \in S}
In(n) == IF Indent THEN n ELSE 0
RECURSIVE Lines(_, _)
Lines(T, n) ==
  IF T.kids = <<>> THEN <<[ind |-> In(n), kind |-> "leaf", attr |-> 0, thr2 |-> 0, op |-> "", key |-> 0, ans |-> T.ans]>>
  ELSE LET Below(k) == <<[ind |-> In(n), kind |-> "branch", attr |-> 0, thr2 |-> 0, op |-> "", key |-> T.kids[k][1], ans |-> 0]>> \o Lines(T.kids[k][2], n + 1) IN
       <<[ind |-> In(n), kind |-> "rule", attr |-> T.attr, thr2 |-> T.thr2, op |-> T.op, key |-> 0, ans |-> 0]>> \o Below(1) \o (IF Len(T.kids) = 2 THEN Below(2) ELSE <<>>)
\* the tree's own answers
Goes(T, x) == CASE T.op = "eq" -> x[2] [] T.op = "le" -> (IF 2 * x[1] <= T.thr2 THEN 0 ELSE 1) [] OTHER -> (IF 2 * x[1] < T.thr2 THEN 0 ELSE 1)
RECURSIVE Decide(_, _)
Decide(T, x) == IF T.kids = <<>> THEN {T.ans} ELSE
  LET K == {k \in 1..Len(T.kids) : T.kids[k][1] = Goes(T, x)} IN
  UNION {Decide(T.kids[k][2], x) : k \in IF K = {} THEN 1..Len(T.kids) ELSE K}
Init == /\ tree \in TreesOf(Depth) /\ text = Lines(tree, 0) /\ at = 1
        /\ row \in {<<a, b>> : a \in Nums, b \in Labels}
Step == /\ text[at].kind = "rule" /\ \E j \in Onward(text, at, row) : at' = j
        /\ UNCHANGED <<tree, text, row>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Clear == Indent => Legible(text)
Arrives == text[at].kind = "leaf" => text[at].ans \in Decide(tree, row)
\* and nothing else could be read out of it
Whole == at = 1 => Read(text, 1, row) = Decide(tree, row)
Ends == <>(text[at].kind = "leaf")
====
