---- MODULE TraceThreshold ----
EXTENDS Threshold, TraceKit
VARIABLES w, whole
tv == <<w, whole>>
TraceInit == CaseInit /\ w = <<>> /\ whole = <<>>
\* where on each axis the label changes: 10^5 over that place (0: nowhere)
TProbe == IsEvent("Probe") /\ w' = Ev.w /\ UNCHANGED whole
TPredict == /\ IsEvent("Predict") /\ Len(Ev.got) = Len(Ev.rows)
            /\ (\A i \in 1..Len(Ev.rows) : Ev.got[i] \in Labels(w, Ev.rows[i])) = TRUE
            /\ whole' = Ev.got /\ UNCHANGED w
\* some of the same rows again, in another batch
TPart == IsEvent("Part") /\ Len(Ev.got) = Len(Ev.pick) /\ (\A i \in 1..Len(Ev.pick) : Ev.got[i] = whole[Ev.pick[i]]) = TRUE /\ UNCHANGED tv
TSame == IsEvent("Same") /\ Ev.was = Ev.now /\ UNCHANGED tv
TUnfit == IsEvent("Unfit") /\ Ev.out = "panic" /\ UNCHANGED tv
TraceNext == TProbe \/ TPredict \/ TPart \/ TSame \/ TUnfit
TraceSpec == TraceInit /\ [][TraceNext]_<<tv, c, l>>
====
