---- MODULE TraceGrid ----
(* Judges recorded histories of a real grid against Grid. Every event carries the operation's
   outcome and, unless it is one of a burst, the whole projected state after it, read back through
   the addresses returned when the attributes were added (cells) and through fresh lookups (again). *)
EXTENDS Grid, TraceKit

TraceInit == GridInit /\ CaseInit

SeqSet(s) == {s[i] : i \in 1..Len(s)}
AttrNames == [i \in 1..Len(attrs') |-> [k |-> attrs'[i].k, n |-> attrs'[i].n]]
\* The reported list names every attribute exactly once.
Reported(list, as) == /\ Len(list) = Len(as)
                      /\ SeqSet(list) = {[k |-> as[i].k, n |-> as[i].n] : i \in 1..Len(as)}
ClassNames(as, cs) == {[k |-> as[i].k, n |-> as[i].n] : i \in cs}
Observed ==
  Has("st") => /\ Ev.st.rows = rows'
               /\ Ev.st.ncols = Len(attrs')
               /\ Reported(Ev.st.attrs, attrs')
               /\ Len(Ev.st.cls) = Cardinality(cls')
               /\ SeqSet(Ev.st.cls) = ClassNames(attrs', cls')
               /\ Ev.st.cells = cells'
               /\ Ev.st.again = cells'

RECURSIVE AddAll(_, _)
TNewGroup == IsEvent("NewGroup") /\ NewGroup(Ev.g, Ev.w, Ev.ok) /\ Observed
TAddAttr == IsEvent("AddAttr") /\ AddAttr(Ev.k, Ev.n, Ev.ok) /\ Observed
TAddAttrTo == IsEvent("AddAttrTo") /\ AddAttrTo(Ev.k, Ev.n, Ev.g, Ev.ok) /\ Observed
TExtend == IsEvent("Extend") /\ Ev.ok /\ Extend(Ev.n) /\ Observed
TSet == IsEvent("Set") /\ Set(Ev.a, Ev.r, Ev.v, Ev.ok) /\ Observed
TMark == IsEvent("Mark") /\ Mark(Ev.k, Ev.n, Ev.ok) /\ Observed
TUnmark == IsEvent("Unmark") /\ Unmark(Ev.k, Ev.n, Ev.ok) /\ Observed
TLookup == IsEvent("Lookup") /\ Lookup(Ev.k, Ev.n, Ev.ok) /\ Observed
AddAll(as, i) == IF i > Len(Ev.names) THEN as ELSE AddAll(Append(as, [k |-> Ev.k, n |-> Ev.names[i], g |-> Ev.g]), i + 1)
TAddMany == /\ IsEvent("AddMany")
            /\ ~fixed /\ Ev.ok
            /\ groups' = [x \in DOMAIN groups \cup {Ev.g} |-> IF x \in DOMAIN groups THEN groups[x] ELSE Width(Ev.k)]
            /\ attrs' = AddAll(attrs, 1)
            /\ cells' = cells \o [i \in 1..Len(Ev.names) |-> Zeroes(rows)]
            /\ UNCHANGED <<cls, rows, fixed>>
            /\ Observed
\* An empty copy has the attributes and class marks and no rows; a full copy also the cells; neither shares storage.
TCopy == /\ IsEvent("Copy")
         /\ UNCHANGED gvars
         /\ Reported(Ev.copy.attrs, attrs)
         /\ SeqSet(Ev.copy.cls) = ClassNames(attrs, cls) /\ Len(Ev.copy.cls) = Cardinality(cls)
         /\ Ev.copy.rows = (IF Ev.full THEN rows ELSE 0)
         /\ Ev.copy.cells = (IF Ev.full THEN cells ELSE [a \in 1..Len(attrs) |-> <<>>])
         /\ Observed      \* logged after the copy was scribbled over
\* Attribute list algebra: exact set semantics; in the order of the first list where that is promised.
Keep(s, P(_)) == SelectSeq(s, P)
TSets == /\ IsEvent("SetOps")
         /\ UNCHANGED gvars
         /\ LET InB(x) == x \in SeqSet(Ev.b)
                NotB(x) == x \notin SeqSet(Ev.b) IN
            /\ Ev.inter = Keep(Ev.a, InB)
            /\ Ev.diff = Keep(Ev.a, NotB)
            /\ SeqSet(Ev.interref) = SeqSet(Ev.inter) /\ Len(Ev.interref) = Len(Ev.inter)
            /\ SeqSet(Ev.diffref) = SeqSet(Ev.diff) /\ Len(Ev.diffref) = Len(Ev.diff)
\* The non-class and the non-class numeric attributes.
TNonClass == /\ IsEvent("NonClass")
             /\ UNCHANGED gvars
             /\ LET nc == (1..Len(attrs)) \ cls
                    ncf == {i \in nc : attrs[i].k = "F"} IN
                /\ SeqSet(Ev.all) = ClassNames(attrs, nc) /\ Len(Ev.all) = Cardinality(nc)
                /\ SeqSet(Ev.floats) = ClassNames(attrs, ncf) /\ Len(Ev.floats) = Cardinality(ncf)
TraceNext == TNewGroup \/ TAddAttr \/ TAddAttrTo \/ TExtend \/ TSet \/ TMark \/ TUnmark \/ TLookup \/ TAddMany \/ TCopy \/ TSets \/ TNonClass
TraceSpec == TraceInit /\ [][TraceNext]_<<gvars, c, l>>
====
