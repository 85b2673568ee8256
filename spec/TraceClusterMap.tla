---- MODULE TraceClusterMap ----
EXTENDS ClusterMap, TraceKit
TraceInit == CaseInit
TInvert == /\ IsEvent("Invert")
           /\ IF Valid(Ev.map) THEN Ev.out = "ok" /\ Len(Ev.inv) = Cardinality(Points(Ev.map)) /\ {<<e.p, e.id>> : e \in Range(Ev.inv)} = Inverse(Ev.map) ELSE Ev.out = "err"
TEqual == IsEvent("Equal") /\ Ev.same = Equal(Ev.a, Ev.b)
\* neither call changes the maps
TAfter == IsEvent("After") /\ Ev.now = Ev.was
TraceNext == TInvert \/ TEqual \/ TAfter
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
====
