---- MODULE TraceIterate ----
EXTENDS Iterate, TraceKit
TraceInit == CaseInit /\ table = <<>> /\ pos = 0 /\ state = "idle"
TBegin == IsEvent("Begin") /\ Begin(Ev.table)
TVisit == IsEvent("Visit") /\ Visit(Ev.r, Ev.cells, Ev.more, Ev.fails)
TEnd == /\ IsEvent("End")
        /\ Ev.res \in {"ok", "mine"}
        /\ End(Ev.res = "mine")
TReset == IsEvent("Reset") /\ Reset
TraceNext == TBegin \/ TVisit \/ TEnd \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_<<ivars, c, l>>
====
