---- MODULE TraceReport ----
EXTENDS Report, TraceKit
VARIABLES m
TraceInit == CaseInit /\ m = <<>>
TMatrix == IsEvent("Matrix") /\ m' = Entries(Ev.matrix)
\* counted from rows
TCount == IsEvent("Count") /\ Len(Ev.ref) = Len(Ev.gen) /\ m' = Counted(Ev.ref, Ev.gen)
TTable == IsEvent("Table") /\ MayTable(m, Ev.table) = TRUE /\ UNCHANGED m
TSummary == IsEvent("Summary") /\ MaySummary(m, Ev.sum) = TRUE /\ UNCHANGED m
TraceNext == TMatrix \/ TCount \/ TTable \/ TSummary
TraceSpec == TraceInit /\ [][TraceNext]_<<m, c, l>>
====
