---- MODULE MCReport ----
(* Rows are counted one at a time, then the matrix is printed: the table has every row counted in it. *)
EXTENDS Report
CONSTANTS K, MaxRows,
          Predicted   \* FALSE: columns for the reference classes only
VARIABLES m, n, table, printed
vars == <<m, n, table, printed>>
Empty == [cols |-> <<>>, lines |-> <<>>]
Init == m = <<>> /\ n = 0 /\ table = Empty /\ printed = FALSE
Count == /\ ~printed /\ n < MaxRows /\ table = Empty
         /\ \E r \in 1..K, p \in 1..K : m' = [q \in DOMAIN m \cup {<<r, p>>} |-> At(m, q[1], q[2]) + (IF q = <<r, p>> THEN 1 ELSE 0)]
         /\ n' = n + 1 /\ UNCHANGED <<table, printed>>
Pick(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE <<Pick(S)>> \o Listed(S \ {Pick(S)})
Title == n > 0 /\ table = Empty /\ table' = [cols |-> Listed(IF Predicted THEN Classes(m) ELSE References(m)), lines |-> <<>>] /\ UNCHANGED <<m, n, printed>>
Left == References(m) \ {table.lines[i].k : i \in 1..Len(table.lines)}
Line == /\ table.cols # <<>> /\ \E r \in Left :
           table' = [table EXCEPT !.lines = Append(@, [k |-> r, ns |-> [j \in 1..Len(table.cols) |-> At(m, r, table.cols[j])]])]
        /\ UNCHANGED <<m, n, printed>>
End == ~printed /\ table.cols # <<>> /\ Left = {} /\ printed' = TRUE /\ UNCHANGED <<m, n, table>>
Spec == Init /\ [][Count \/ Title \/ Line \/ End]_vars
Right == printed => MayTable(m, table)
All == printed => Counted2(table) = n
====
