---- MODULE MCThreshold ----
(* Rows are labelled one after another into an answer which starts out all first. *)
EXTENDS Threshold
CONSTANTS N, Ws, Xs,
          Own  \* FALSE: a row found to be of the first class is written elsewhere
VARIABLES w, rows, ans, i
vars == <<w, rows, ans, i>>
Init == /\ w \in [1..2 -> Ws] /\ rows \in [1..N -> [1..2 -> Xs]] /\ ans = [r \in 1..N |-> 0] /\ i = 1
Next == /\ i <= N /\ i' = i + 1 /\ UNCHANGED <<w, rows>>
        /\ \E k \in Labels(w, rows[i]) : ans' = [ans EXCEPT ![IF k = 0 /\ ~Own THEN 1 ELSE i] = k]
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == \A r \in 1..i - 1 : ans[r] \in Labels(w, rows[r])
Ends == <>(i > N)
====
