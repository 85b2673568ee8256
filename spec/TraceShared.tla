---- MODULE TraceShared ----
(* Judges what goroutines using one grid at the same time were told. *)
EXTENDS Shared, TraceKit

TraceInit == SharedInit /\ CaseInit

\* A new grid.
TFresh == IsEvent("Fresh") /\ data' = Empty /\ pos' = <<>>
\* Goroutines start together, on the layout as it is.
TStart == /\ IsEvent("Together")
          /\ ("Together" = Cases[c].ev[l - 1].e) => Finished(Cases[c].ev[l - 1].prog)
          /\ pos' = [t \in 1..Len(Ev.prog) |-> 0]
          /\ UNCHANGED data
\* One of their operations takes effect: the event before this one says what they did.
Prog == Cases[c].ev[l - 1].prog
TTake == /\ l > 1 /\ Cases[c].ev[l - 1].e = "Together"
         /\ \E t \in 1..Len(Prog) : Take(Prog, t)
         /\ UNCHANGED <<c, l>>
\* All are done: what the grid is now, read by one goroutine. cells and again are the cells of each
\* attribute that was added, by the address given when it was and by looking it up, after a distinct
\* value has been stored in each by the former.
TSettled == /\ IsEvent("Settled")
            /\ Cases[c].ev[l - 1].e = "Together" /\ Finished(Prog)
            /\ UNCHANGED svars
            /\ Ev.rows = data.rows
            /\ Ev.ncols = Cardinality(data.attrs)
            /\ SetOf(Ev.attrs) = Names(data) /\ Len(Ev.attrs) = Cardinality(Names(data))
            /\ SetOf(Ev.cls) = data.cls /\ Len(Ev.cls) = Cardinality(data.cls)
            /\ Ev.groups = [g \in DOMAIN Ev.groups |-> g \in data.groups]
            /\ Len(Ev.added) = Cardinality(data.attrs)
            /\ SetOf(Ev.added) = Names(data)
            /\ Ev.cells = Ev.stored /\ Ev.again = Ev.stored
\* Every goroutine that reads a grid nobody writes sees what a goroutine alone sees.
TReaders == /\ IsEvent("Readers")
            /\ UNCHANGED svars
            /\ \A i \in 1..Len(Ev.seen) : Ev.seen[i].saw = Ev.alone[Ev.seen[i].way]
TraceNext == TFresh \/ TStart \/ TTake \/ TSettled \/ TReaders
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, c, l>>
====
