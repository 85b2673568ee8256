---- MODULE TraceText ----
EXTENDS Text, TraceKit
TraceInit == CaseInit /\ g = "none" /\ store = "none"
D(x) == [attrs |-> x.attrs, cls |-> Rng(x.cls), rows |-> x.rows]
Same == UNCHANGED <<g, store>>
Out == IF Ev.ok THEN D(Ev.out) ELSE [rows |-> <<>>]
TRead == IsEvent("Read") /\ Same /\ Answer(Ev.file, Ev.ok, Out)
\* counting the data lines of a file
TCount == IsEvent("Count") /\ Same /\ (Sound(Ev.file) => Ev.ok /\ Ev.n = Len(Ev.file.lines) + Ev.head)
\* a source which failed before its end, or is not there, is never taken for a whole one
TFault == IsEvent("Fault") /\ Same /\ ~Ev.ok
\* read into a template, which stays usable whatever happens
TLoad == IsEvent("Load") /\ Answer(Ev.file, TRUE, D(Ev.out)) /\ g' = D(Ev.out) /\ UNCHANGED store
TLike == /\ IsEvent("Like")
         /\ IF SoundLike(Ev.file, g) THEN Ev.ok /\ Identical(ParseLike(g, Ev.file.names, Ev.file.lines), D(Ev.out)) ELSE Bare(Ev.file) \/ ~Ev.ok
         /\ g' = D(Ev.tmpl) /\ UNCHANGED store /\ g'.rows = g.rows /\ g'.cls = g.cls
         /\ \A k \in 1..Len(g.attrs) : /\ g'.attrs[k].name = g.attrs[k].name /\ g'.attrs[k].type = g.attrs[k].type
                                       /\ SubSeq(g'.attrs[k].labels, 1, Len(g.attrs[k].labels)) = g.attrs[k].labels
TraceNext == TRead \/ TCount \/ TFault \/ TLoad \/ TLike
TraceSpec == TraceInit /\ [][TraceNext]_<<g, store, c, l>>
====
