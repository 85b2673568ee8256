---- MODULE TraceIsolation ----
EXTENDS Isolation, TraceKit
TraceInit == CaseInit
\* one tree
TTree == IsEvent("Tree") /\ Len(Ev.paths) = Len(Ev.points) /\ Explains(Ev.points, Ev.paths, Ev.data, Ev.n, Ev.limit)
\* several trees over two points
TStumps == IsEvent("Stumps") /\ StumpsExplain(Ev.trees, Ev.n, Ev.sum1, Ev.sum2)
\* over many forests, each row is in some subsample and missing from some
TDrawn == IsEvent("Drawn") /\ \A i \in 1..Len(Ev.seen) : Ev.seen[i]
\* large trees; the points are in order
TLarge == IsEvent("Large") /\ Len(Ev.paths) = Len(Ev.points) /\ LargeExplained(Ev.points, Ev.paths, Ev.n, Ev.limit)
THalves == IsEvent("Halves") /\ HalvesExplained(Ev.n, Ev.both, Ev.p1, Ev.p2)
TraceNext == TLarge \/ THalves \/ TTree \/ TStumps \/ TDrawn
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
====
