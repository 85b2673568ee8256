---- MODULE TraceFilter ----
(* After every operation the real filtered grid is read back in full: its attributes at (as <<i, j, kind>>),
   row count, class attributes, lookups, all cells by Get and by iteration (in a shuffled attribute order). *)
EXTENDS Filter, TraceKit
VARIABLE order   \* the source's own attribute order
TraceInit == CaseInit /\ attrs = <<>> /\ cells = <<>> /\ flt = [kind |-> "none", chosen |-> {}] /\ cls = {} /\ order = <<>>
RECURSIVE OutSeq(_)
OutSeq(k) == IF k = 0 THEN <<>> ELSE OutSeq(k - 1) \o [j \in 1..Images(order[k]) |-> <<order[k], j>>]
Id(o) == <<o[1], o[2]>>
ShownNow == LET s == Ev.shown
                want == OutSeq(Len(order))
                n == Len(cells) IN
  /\ Len(s.at) = Len(want)
  /\ \A k \in 1..Len(want) : s.at[k][1] = want[k][1] /\ s.at[k][2] = want[k][2] /\ s.at[k][3] = KindOf(want[k])
  /\ s.n = n
  /\ Len(s.cls) = Cardinality(cls) /\ {Id(o) : o \in Rng(s.cls)} = cls
  /\ {Id(o) : o \in Rng(s.found)} = Outs
  /\ Rng(s.oldfound) = {i \in Is : Itself(i)}
  /\ Len(s.rows) = n /\ \A r \in 1..n : s.rows[r] = [k \in 1..Len(want) |-> OutCell(r, want[k])]
  /\ {Id(o) : o \in Rng(s.mat)} = Outs /\ Len(s.mat) = Len(want)
  /\ Len(s.mapped) = n
  /\ \A r \in 1..n : s.mapped[r] = [k \in 1..Len(want) |-> OutCell(r, Id(s.mat[k]))]
TBegin == IsEvent("Begin") /\ attrs = <<>> /\ Setup(Ev.attrs, Ev.rows, [kind |-> Ev.kind, chosen |-> Rng(Ev.chosen)], Rng(Ev.cls))
          /\ Rng(Ev.order) = 1..Len(Ev.attrs) /\ Len(Ev.order) = Len(Ev.attrs) /\ order' = Ev.order
Shown == IsEvent("Shown") /\ ShownNow /\ UNCHANGED <<fvars, order>>
TWrite == IsEvent("Write") /\ Write(Ev.r, Ev.i, Ev.x) /\ UNCHANGED order
TMarkOld == IsEvent("MarkOld") /\ Ev.ok = TRUE /\ MarkOld(Ev.i, Ev.on) /\ UNCHANGED order
TMarkNew == IsEvent("MarkNew") /\ Ev.ok = TRUE /\ MarkNew(<<Ev.i, Ev.j>>, Ev.on) /\ UNCHANGED order
TUnknown == IsEvent("Unknown") /\ Ev.ok = FALSE /\ MarkUnknown /\ UNCHANGED order
\* the bytes of the source are as written, whatever was read through the filter
TSource == IsEvent("Source") /\ Ev.rows = cells /\ UNCHANGED <<fvars, order>>
TraceNext == TBegin \/ Shown \/ TWrite \/ TMarkOld \/ TMarkNew \/ TUnknown \/ TSource
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, order, c, l>>
====
