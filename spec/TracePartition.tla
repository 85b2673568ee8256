---- MODULE TracePartition ----
EXTENDS Partition, TraceKit
TraceInit == CaseInit /\ tab = <<>> /\ ord = <<>> /\ nam = <<>> /\ cls = 0
TLoad == IsEvent("Load") /\ tab' = Ev.rows /\ ord' = Ev.ord /\ nam' = Ev.nam /\ cls' = Ev.cls
\* every part keeps all other columns, once each, and the class mark unless that column was dropped
Shape == \A i \in 1..Len(Ev.parts) :
           /\ NoDup(Ev.parts[i].cols)
           /\ Rng(Ev.parts[i].cols) = (1..Len(nam)) \ {Ev.k}
           /\ Rng(Ev.parts[i].cls) = {cls} \ {Ev.k, 0}
TDecompose == IsEvent("Decompose") /\ Shape /\ Decompose(Ev.k, Ev.parts) /\ Ev.src = tab
TThreshold == IsEvent("Threshold") /\ Shape /\ Threshold(Ev.k, Ev.thr, Ev.parts) /\ Ev.src = tab
TDist == IsEvent("Dist") /\ Distribution(Ev.out)
TGroup == IsEvent("DistBy") /\ GroupedBy(Ev.k, Ev.out)
TGroupThr == IsEvent("DistByThr") /\ GroupedByThreshold(Ev.k, Ev.thr, Ev.out)
TCoded == IsEvent("DistCoded") /\ Coded(Ev.out, Ev.codes)
THalves == IsEvent("DistHalves") /\ Halves(Ev.out, Ev.half)
TraceNext == TLoad \/ TDecompose \/ TThreshold \/ TDist \/ TGroup \/ TGroupThr \/ TCoded \/ THalves
TraceSpec == TraceInit /\ [][TraceNext]_<<pvars, c, l>>
====
