---- MODULE TraceCompare ----
EXTENDS Compare, TraceKit
TraceInit == CaseInit /\ g = <<>>
A == g[1]
B == g[2]
TGrids == IsEvent("Grids") /\ g' = Ev.g
TEqual == IsEvent("Equal") /\ Ev.out = GridEq(A, B) /\ UNCHANGED g
TStrict == IsEvent("Strict") /\ Ev.out = Strict(A, B) /\ UNCHANGED g
\* nil: the grids do not have the same attributes
TLoose == IsEvent("Loose") /\ Ev.isnil = ~SameAttrs(A.attrs, B.attrs) /\ (~Ev.isnil => Ev.out = Common(A.attrs, B.attrs)) /\ UNCHANGED g
TIntersect == IsEvent("Intersect") /\ Ev.out = Common(A.attrs, B.attrs) /\ UNCHANGED g
TDifference == IsEvent("Difference") /\ Ev.out = Missing(A.attrs, B.attrs) /\ UNCHANGED g
TAttrEq == IsEvent("AttrEq") /\ Ev.out = [i \in 1..Len(A.attrs) |-> [j \in 1..Len(B.attrs) |-> AttrEq(A.attrs[i], B.attrs[j])]] /\ UNCHANGED g
TraceNext == TGrids \/ TEqual \/ TStrict \/ TLoose \/ TIntersect \/ TDifference \/ TAttrEq
TraceSpec == TraceInit /\ [][TraceNext]_<<g, c, l>>
====
