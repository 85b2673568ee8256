---- MODULE TraceGridText ----
EXTENDS GridText, TraceKit
VARIABLES g
TraceInit == CaseInit /\ g = [attrs |-> <<>>, cls |-> {}, rows |-> <<>>]
TGrid == IsEvent("Grid") /\ g' = [attrs |-> Ev.grid.attrs, cls |-> {Ev.grid.cls[i] : i \in 1..Len(Ev.grid.cls)}, rows |-> Ev.grid.rows]
TSummary == IsEvent("Summary") /\ MaySum(g, Ev.sum, AtLeast) = TRUE /\ UNCHANGED g
TRow == IsEvent("Row") /\ Ev.row \in 1..Len(g.rows) /\ ShowsRow(g, Ev.row, Ev.fields) = TRUE /\ UNCHANGED g
TraceNext == TGrid \/ TSummary \/ TRow
TraceSpec == TraceInit /\ [][TraceNext]_<<g, c, l>>
====
