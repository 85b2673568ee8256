---- MODULE TraceForest ----
EXTENDS Forest, TraceKit
\* (...) = TRUE keeps TLC from branching on the witnesses of quantifiers
VARIABLES D, Ts, nc
tv == <<D, Ts, nc>>
TraceInit == CaseInit /\ D = [typ |-> <<>>, rows |-> <<>>, cls |-> <<>>] /\ Ts = <<>> /\ nc = 0
TData == IsEvent("Data") /\ D' = [typ |-> Ev.typ, rows |-> Ev.rows, cls |-> Ev.cls] /\ Ts' = <<>> /\ nc' = Ev.classes
TForest == /\ IsEvent("Forest") /\ Len(Ev.trees) = Ev.size /\ Ev.features <= Len(D.typ)
           /\ (\A k \in 1..Len(Ev.trees) : FromSample(D, Ev.features, Ev.trees[k])) = TRUE
           /\ Ev.wide => (UNION {Used(Ev.trees[k]) : k \in 1..Ev.size} = Attrs(D) /\ \E k \in 1..Ev.size : \E j \in 1..nc : Ev.trees[k][1].dist[j] # Cardinality({r \in All(D) : D.cls[r] = j}))
           /\ Ts' = Ev.trees /\ UNCHANGED <<D, nc>>
TRefused == IsEvent("Refused") /\ Ev.features > Len(D.typ) /\ UNCHANGED tv
TPredict == /\ IsEvent("Predict") /\ Len(Ev.got) = Len(Ev.rows) /\ UNCHANGED tv
            /\ (\A i \in 1..Len(Ev.rows) : Elected(D.typ, Ts, nc, Ev.rows[i], Ev.got[i])) = TRUE
TraceNext == TData \/ TForest \/ TRefused \/ TPredict
TraceSpec == TraceInit /\ [][TraceNext]_<<tv, c, l>>
====
