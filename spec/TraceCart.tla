---- MODULE TraceCart ----
EXTENDS Cart, TraceKit
VARIABLES D, T, crit
tv == <<D, T, crit>>
TraceInit == CaseInit /\ D = [typ |-> <<>>, rows |-> <<>>, cls |-> <<>>] /\ T = <<>> /\ crit = ""
TData == IsEvent("Data") /\ D' = [typ |-> Ev.typ, rows |-> Ev.rows, cls |-> Ev.cls] /\ UNCHANGED <<T, crit>>
TFit == IsEvent("Fit") /\ UNCHANGED D /\ T' = Ev.tree /\ crit' = Ev.crit /\ CTree(Ev.crit, Ev.limit, D, Ev.tree)
TPredict == /\ IsEvent("Predict") /\ UNCHANGED tv /\ Len(Ev.got) = Len(Ev.rows)
            /\ \A i \in 1..Len(Ev.rows) : Ev.got[i] = CAnswer(T, 1, Ev.rows[i])
TEvaluate == /\ IsEvent("Evaluate") /\ UNCHANGED tv
             /\ Ev.right = Cardinality({i \in 1..Len(Ev.rows) : CAnswer(T, 1, Ev.rows[i]) = Ev.cls[i]})
TraceNext == TData \/ TFit \/ TPredict \/ TEvaluate
TraceSpec == TraceInit /\ [][TraceNext]_<<tv, c, l>>
====
