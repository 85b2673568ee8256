---- MODULE TraceCodec ----
EXTENDS Codec, TraceKit
TraceInit == CaseInit /\ g = "none" /\ store = "none"
D(x) == [attrs |-> x.attrs, cls |-> Rng(x.cls), rows |-> x.rows]
Keep == UNCHANGED store
\* a file that can be read is read exactly; one that cannot is an error, and only such a one
TCSV == /\ IsEvent("CSV") /\ Keep
        /\ Ev.ok = Readable(Typed(Ev.names, Ev.lines), Ev.lines)
        /\ IF Ev.ok THEN g' = D(Ev.out) /\ Identical(ParseCSV(Ev.names, Ev.lines), g') ELSE UNCHANGED g
\* the same, with named attribute groups and chosen class attributes
TGrouped == /\ IsEvent("Grouped") /\ Keep
            /\ Ev.ok = Readable(TypedAs(Ev.over, Ev.names, Ev.lines), Ev.lines)
            /\ IF ~Ev.ok THEN UNCHANGED g ELSE g' = D(Ev.out) /\ Identical(ParseAs(Ev.over, Ev.names, Ev.lines, Rng(Ev.cls)), g')
TLike == /\ IsEvent("Like") /\ Keep
         /\ Ev.ok = TRUE /\ g' = D(Ev.out) /\ Identical(ParseLike(g, Ev.names, Ev.lines), g')
         \* the template's own rows, and the codes it had, stay
         /\ Ev.tmpl.rows = g.rows
         /\ \A k \in 1..Len(g.attrs) : Ev.tmpl.attrs[k].name = g.attrs[k].name /\ SubSeq(Ev.tmpl.attrs[k].labels, 1, Len(g.attrs[k].labels)) = g.attrs[k].labels
TLoad == IsEvent("Load") /\ Keep /\ g' = D(Ev.out)
TWrite == IsEvent("Write") /\ Ev.ok = TRUE /\ Written(g, Ev.header, Ev.lines) /\ UNCHANGED <<g, store>>
TReread == IsEvent("Reread") /\ Ev.ok = TRUE /\ SameValues(g, D(Ev.out)) /\ (Ev.cls => D(Ev.out).cls = g.cls) /\ UNCHANGED <<g, store>>
TARFF == /\ IsEvent("ARFF") /\ Keep
         /\ Ev.ok = Declared(Ev.attrs, Ev.lines)
         /\ IF Ev.ok THEN g' = D(Ev.out) /\ Identical(ParseARFF(Ev.attrs, Ev.lines), g') /\ (Ev.inorder => g'.attrs = Ev.attrs) ELSE UNCHANGED g
TAgain == IsEvent("Again") /\ Ev.ok = TRUE /\ Identical(g, D(Ev.out)) /\ UNCHANGED <<g, store>>
\* the structure of a grid, and the whole of it, in one archive
TStructure == /\ IsEvent("Structure") /\ Ev.ok = TRUE /\ UNCHANGED <<g, store>>
              /\ Identical([g EXCEPT !.rows = <<>>], D(Ev.out)) /\ Identical(g, D(Ev.all))
\* large grids: rows as text, in a fixed attribute order
TBulk == IsEvent("Bulk") /\ Ev.ok = TRUE /\ Ev.before = Ev.after /\ Len(Ev.before) = Ev.n /\ UNCHANGED <<g, store>>
TraceNext == TCSV \/ TGrouped \/ TLike \/ TLoad \/ TWrite \/ TReread \/ TARFF \/ TAgain \/ TStructure \/ TBulk
TraceSpec == TraceInit /\ [][TraceNext]_<<g, store, c, l>>
====
