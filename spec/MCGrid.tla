---- MODULE MCGrid ----
(* Bounded instances of Grid: an exhaustive one, and a generator of operation histories (hist is
   observed by the generator only; the exhaustive configuration hides it with a VIEW). *)
EXTENDS Grid, TLC, Json
CONSTANTS Kinds, Names, GroupNames, Widths, MaxAttrs, MaxRows, Growth, Vals, Depth, Gen
VARIABLE hist
vars == <<groups, attrs, cls, rows, cells, fixed, hist>>
H(e) == hist' = IF Gen THEN Append(hist, e) ELSE hist

Fresh(k, n) == Find(k, n) = {}
DoNewGroup == \E g \in GroupNames, w \in Widths :
   \/ ~fixed /\ g \notin DOMAIN groups /\ NewGroup(g, w, TRUE) /\ H([op |-> "NewGroup", g |-> g, w |-> w])
   \/ fixed /\ g \notin DOMAIN groups /\ NewGroup(g, w, FALSE) /\ H([op |-> "NewGroup", g |-> g, w |-> w])
DoAdd == \E k \in Kinds, n \in Names :
   /\ Len(attrs) < MaxAttrs
   /\ Fresh(k, n)
   /\ \E ok \in BOOLEAN : AddAttr(k, n, ok)
   /\ H([op |-> "AddAttr", k |-> k, n |-> n])
DoAddTo == \E k \in Kinds, n \in Names, g \in GroupNames :
   /\ Len(attrs) < MaxAttrs
   /\ Fresh(k, n)
   /\ g \in DOMAIN groups => (groups[g] = 0 <=> k = "B")
   /\ \E ok \in BOOLEAN : AddAttrTo(k, n, g, ok)
   /\ H([op |-> "AddAttrTo", k |-> k, n |-> n, g |-> g])
DoExtend == \E n \in Growth : rows + n <= MaxRows /\ Extend(n) /\ H([op |-> "Extend", n |-> n])
DoSet == \E a \in 1..Len(attrs), r \in 1..(rows + 1) : \E v \in (IF groups[attrs[a].g] = 0 THEN {"z", "v1"} ELSE Vals) :
   /\ fixed
   /\ \E ok \in BOOLEAN : Set(a, r, v, ok)
   /\ H([op |-> "Set", a |-> a, r |-> r, v |-> v])
DoMark == \E k \in Kinds, n \in Names : (\E ok \in BOOLEAN : Mark(k, n, ok)) /\ H([op |-> "Mark", k |-> k, n |-> n])
DoUnmark == \E k \in Kinds, n \in Names : (\E ok \in BOOLEAN : Unmark(k, n, ok)) /\ H([op |-> "Unmark", k |-> k, n |-> n])
DoLookup == \E k \in Kinds, n \in Names : (\E ok \in BOOLEAN : Lookup(k, n, ok)) /\ H([op |-> "Lookup", k |-> k, n |-> n])

Init == GridInit /\ hist = <<>>
Next == \/ DoNewGroup \/ DoAdd \/ DoAddTo \/ DoExtend \/ DoSet \/ DoMark \/ DoUnmark \/ DoLookup
Spec == Init /\ [][Next]_vars

\* Generator. TLC's simulator picks one of the disjuncts, then one of its successors, so repeating
\* a disjunct weights the operation.
More == Len(hist) < Depth
GExtend == More /\ Len(attrs) > 2 /\ DoExtend
GSet == More /\ rows > 0 /\ DoSet
GAdd == More /\ Len(attrs) < MaxAttrs /\ DoAdd
GAddTo == More /\ Len(attrs) < MaxAttrs /\ DoAddTo
GNew == More /\ DoNewGroup
GMark == More /\ DoMark
GUnmark == More /\ DoUnmark
GLookup == More /\ DoLookup
\* The last step is the only successor, so that each behaviour is printed once.
GFinish == Len(hist) = Depth /\ hist' = Append(hist, [op |-> "End"]) /\ UNCHANGED gvars
GenNext == \/ GSet \/ GSet \/ GSet \/ GSet \/ GSet \/ GSet \/ GExtend \/ GAdd \/ GAdd \/ GAddTo \/ GAddTo
           \/ GFinish \/ GNew \/ GMark \/ GUnmark \/ GLookup
\* The same with the weight on attributes, lookups and class marks.
GExtendLate == Len(hist) > 12 /\ GExtend
GenAttrNext == \/ GAdd \/ GAdd \/ GAddTo \/ GNew \/ GExtendLate \/ GSet \/ GFinish
               \/ GMark \/ GMark \/ GMark \/ GUnmark \/ GUnmark \/ GLookup \/ GLookup
GenAttrSpec == Init /\ [][GenAttrNext]_vars
GenSpec == Init /\ [][GenNext]_vars
Emit == (Len(hist) = Depth + 1) => PrintT("SCN " \o ToJson(hist))
====
