---- MODULE TraceDensity ----
EXTENDS Density, TraceKit
Range(s) == {s[i] : i \in DOMAIN s}
TraceInit == CaseInit
\* clusters hold row numbers from 0, without repetition
TCluster == /\ IsEvent("Cluster")
            /\ \A i \in 1..Len(Ev.clusters) : Len(Ev.clusters[i]) = Cardinality(Range(Ev.clusters[i]))
            /\ \A i, j \in 1..Len(Ev.clusters) : i # j => Range(Ev.clusters[i]) \cap Range(Ev.clusters[j]) = {}
            /\ (Clustering(TLCEval(Hoods(Ev.pts, Ev.metric, Ev.eps2)), Ev.min, {{r + 1 : r \in Range(Ev.clusters[i])} : i \in 1..Len(Ev.clusters)})) = TRUE
TraceNext == TCluster
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
====
