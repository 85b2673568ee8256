---- MODULE MCForest ----
(* Forests of leaves and stumps over every small data set: each tree gets a bootstrap sample and K of the
   attributes. *)
EXTENDS Forest
CONSTANTS N, K, NT,
          Honest  \* FALSE: samples come from the rows to be predicted as well
VARIABLES D, Ts, x, res
vars == <<D, Ts, x, res>>
Row == {<<a, b>> : a \in 0..1, b \in 0..1}
Count(S, q) == [c \in 1..2 |-> Cardinality({i \in S : q[i][3] = c})]
Top(d) == IF d[2] > d[1] THEN {2} ELSE IF d[1] > d[2] THEN {1} ELSE {1, 2}
\* trees for sample q (a sequence of rows with their class) over the attributes A
Leaf(S, q, c) == [attr |-> 0, thr2 |-> 0, kids |-> <<>>, dist |-> Count(S, q), cls |-> c]
Stumps(q, A) == UNION {LET S(v) == {i \in 1..N : q[i][a] = v} IN
     IF S(0) = {} \/ S(1) = {} THEN {} ELSE
     {<<[attr |-> a, thr2 |-> 0, kids |-> <<[key |-> 0, id |-> 2], [key |-> 1, id |-> 3]>>, dist |-> Count(1..N, q), cls |-> c1],
             Leaf(S(0), q, c2), Leaf(S(1), q, c3)>> : c1 \in Top(Count(1..N, q)), c2 \in Top(Count(S(0), q)), c3 \in Top(Count(S(1), q))} : a \in A}
Trees1(q, A) == LET s == Stumps(q, A) IN
  IF s = {} \/ \A i, j \in 1..N : q[i][3] = q[j][3] THEN {<<Leaf(1..N, q, c)>> : c \in Top(Count(1..N, q))} ELSE s
Source == {<<D.rows[r][1], D.rows[r][2], D.cls[r]>> : r \in 1..N} \cup (IF Honest THEN {} ELSE {<<x[1], x[2], 2>>})
Init == /\ \E rs \in [1..N -> Row], cs \in [1..N -> 1..2] : D = [typ |-> <<"cat", "cat">>, rows |-> rs, cls |-> cs]
        /\ Ts = <<>> /\ x \in Row /\ res = 0
Plant == /\ Len(Ts) < NT
         /\ \E q \in [1..N -> Source], A \in {A \in SUBSET {1, 2} : Cardinality(A) = K} : \E T \in Trees1(q, A) : Ts' = Append(Ts, T)
         /\ UNCHANGED <<D, x, res>>
Vote == /\ Len(Ts) = NT /\ res = 0 /\ \E c \in 1..2 : Elected(D.typ, Ts, 2, x, c) /\ res' = c
        /\ UNCHANGED <<D, Ts, x>>
Next == Plant \/ Vote
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Grounded == \A k \in 1..Len(Ts) : FromSample(D, K, Ts[k])
Unanimous == res # 0 => \A c \in 1..2 : (\A k \in 1..NT : Possible(D.typ, Ts[k], x) = {c}) => res = c
Sure == \A c \in 1..2 : (\A r \in 1..N : D.cls[r] = c) => res \in {0, c}
Answers == <>(res # 0)
====
