---- MODULE TraceDiscretise ----
EXTENDS Discretise, TraceKit
TraceInit == CaseInit /\ vals = <<>> /\ clss = <<>> /\ cuts = {} /\ par = [minr |-> 2, maxr |-> 2, sig |-> 1, k |-> 2, mult |-> 1]
TColumn == IsEvent("Column") /\ Column(Ev.vals, Ev.clss, Ev.par)
\* rounds of merging are not recorded
TMerge == vals # <<>> /\ l <= Len(Cases[c].ev) /\ Ev.e = "Intervals" /\ Merge /\ UNCHANGED <<c, l>>
SeqOfSet(S) == [i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1]
TIntervals == /\ IsEvent("Intervals") /\ UNCHANGED dvars
              /\ MayStop
              /\ Len(Ev.labels) = Cardinality(cuts)
              /\ Ev.exact => Ev.labels = SeqOfSet(cuts)   \* otherwise the values differ beyond the digits printed
              /\ Len(Ev.codes) = Len(Ev.probes)
              /\ \A i \in 1..Len(Ev.probes) : Ev.codes[i] = IndexOf(cuts, Ev.probes[i])
Abs(x) == IF x < 0 THEN -x ELSE x
\* labels[k]: thousandths of the label's number, at most tol thousandths from the bin's left edge; any when they are printed too short
TBins == /\ IsEvent("Bins") /\ UNCHANGED dvars
         /\ LET lo == MinOf(Distinct(Ev.vals)) hi == MaxOf(Distinct(Ev.vals)) IN
            /\ Len(Ev.codes) = Len(Ev.probes)
            /\ \A i \in 1..Len(Ev.probes) : Ev.codes[i] = BinOf(Ev.probes[i], lo, hi, Ev.bins)
            /\ Len(Ev.labels) = IF hi = lo THEN 1 ELSE Ev.bins + 1
            /\ \A k \in 1..Len(Ev.labels) : Ev.tol > 1000000 \/ Abs(Ev.labels[k] * Ev.bins - 1000 * (lo * Ev.bins + (k - 1) * (hi - lo))) <= Ev.tol * Ev.bins
TraceNext == TColumn \/ TMerge \/ TIntervals \/ TBins
TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, c, l>>
====
