---- MODULE TraceView ----
(* Judges recorded view histories. After every operation each grid made so far reports its size,
   attributes, class attributes and all cells it can read; content[r][k] is the cell of row r and the
   k-th reported attribute. *)
EXTENDS View, TraceKit
VARIABLE ordered   \* ordered[i]: grid i was made with an explicit attribute order
TraceInit == CaseInit /\ data = <<>> /\ grids = <<>> /\ ordered = <<>>

SeesGrid(i, o) ==
  LET g == grids'[i] IN
  /\ o.n = Len(g.sel)
  /\ o.m = Len(g.at)
  /\ Len(o.at) = Len(g.at)
  /\ IF ordered'[i] THEN o.at = g.at ELSE Range(o.at) = Range(g.at)
  /\ Len(o.cls) = Cardinality(g.cls)
  /\ Range(o.cls) = g.cls
  /\ o.oob = <<"panic", "panic">>
  /\ Range(o.found) = Range(g.at)
  /\ Len(o.content) = Len(g.sel)
  /\ \A r \in 1..Len(g.sel) : o.content[r] = [k \in 1..Len(o.at) |-> data'[g.sel[r]][o.at[k]]]
Observed == /\ Len(Ev.grids) = Len(grids')
            /\ \A i \in 1..Len(grids') : SeesGrid(i, Ev.grids[i])

TBase == /\ IsEvent("Base")
         /\ grids = <<>>
         /\ data' = Ev.data
         /\ grids' = <<[sel |-> [i \in 1..Len(Ev.data) |-> i], at |-> [k \in 1..Ev.attrs |-> k], cls |-> Range(Ev.cls)]>>
         /\ ordered' = <<FALSE>>
         /\ Observed
TVisible == IsEvent("Visible") /\ Visible(Ev.of, Ev.rows, Ev.attrs) /\ ordered' = Append(ordered, TRUE) /\ Observed
TFromRows == IsEvent("FromRows") /\ FromRows(Ev.of, Ev.map) /\ ordered' = Append(ordered, ordered[Ev.of]) /\ Observed
TFromAttrs == IsEvent("FromAttrs") /\ FromAttrs(Ev.of, Ev.attrs) /\ ordered' = Append(ordered, TRUE) /\ Observed
TWrite == IsEvent("Write") /\ Write(Ev.r, Ev.a, Ev.v) /\ UNCHANGED ordered /\ Observed
TMark == IsEvent("Mark") /\ MarkClass(Ev.g, Ev.a, Ev.ok) /\ UNCHANGED ordered /\ Observed
TUnmark == IsEvent("Unmark") /\ UnmarkClass(Ev.g, Ev.a) /\ UNCHANGED ordered /\ Observed
\* A copy holds what the grid shows, cells of its own (what is done to it shows nowhere else), and its class marks.
CopyOf(g, o, n) ==
  /\ o.n = n /\ o.m = Len(g.at) /\ Len(o.at) = Len(g.at) /\ Range(o.at) = Range(g.at)
  /\ Len(o.cls) = Cardinality(g.cls) /\ Range(o.cls) = g.cls
  /\ Len(o.content) = n
  /\ \A r \in 1..n : o.content[r] = [k \in 1..Len(o.at) |-> data[g.sel[r]][o.at[k]]]
TCopy == /\ IsEvent("Copy") /\ UNCHANGED vvars /\ UNCHANGED ordered
         /\ CopyOf(grids[Ev.of], Ev.full, Len(grids[Ev.of].sel)) /\ CopyOf(grids[Ev.of], Ev.empty, 0)
         /\ Observed
TraceNext == TCopy \/ TBase \/ TVisible \/ TFromRows \/ TFromAttrs \/ TWrite \/ TMark \/ TUnmark
TraceSpec == TraceInit /\ [][TraceNext]_<<vvars, ordered, c, l>>
====
