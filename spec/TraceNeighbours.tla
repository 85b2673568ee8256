---- MODULE TraceNeighbours ----
EXTENDS Neighbours, TraceKit
VARIABLES rows, cls   \* what was stored: vectors; class (or target value) of each
nv == <<rows, cls>>
TraceInit == CaseInit /\ rows = <<>> /\ cls = <<>>
TStore == IsEvent("Store") /\ rows' = Ev.rows /\ cls' = Ev.cls
SetOf(s) == {s[i] : i \in 1..Len(s)}
TSearch == /\ IsEvent("Search") /\ UNCHANGED nv
           /\ IF Ev.k > Len(rows) \/ Len(Ev.target) # Len(rows[1]) THEN Ev.out = "err"
              ELSE /\ Ev.out = "ok" /\ Len(Ev.ids) = Ev.k /\ Len(Ev.dists) = Ev.k
                   /\ IsNearestFast(Ev.m, Ev.target, rows, Ev.k, SetOf(Ev.ids))
                   /\ \A i \in 1..Ev.k : Ev.dists[i] = Measure(Ev.m, Ev.target, rows[Ev.ids[i]])
TPredict == /\ IsEvent("Predict") /\ UNCHANGED nv
            /\ IF Ev.k > Len(rows) THEN Ev.out = "err"
               ELSE /\ Ev.out = "ok" /\ Len(Ev.got) = Len(Ev.targets)
                    /\ \A i \in 1..Len(Ev.targets) : MayPredict(Ev.m, Ev.targets[i], rows, cls, Ev.k, Ev.weighted, Ev.got[i])
TAverage == IsEvent("Average") /\ UNCHANGED nv /\ MayAverage(Ev.m, Ev.target, rows, cls, Ev.k, Ev.sum)
TraceNext == TStore \/ TSearch \/ TPredict \/ TAverage
TraceSpec == TraceInit /\ [][TraceNext]_<<nv, c, l>>
====
