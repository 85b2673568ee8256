---- MODULE TraceSink ----
EXTENDS Sink, TraceKit
\* room 10^9: without limit
TraceInit == CaseInit /\ room = 0 /\ got = 0 /\ res = "none"
Whole == Ev.total
\* the unlimited write: gives the content
TFull == IsEvent("Full") /\ room' = 1000000000 /\ got' = Ev.total /\ res' = Ev.res /\ res' = "ok"
\* a write with limited room: Told and Fair (the length is the event's, so they are written out). strict: only the content itself needs room; same: the content never varies
TLimited == /\ IsEvent("Limited") /\ room' = Ev.room /\ got' = Ev.got /\ res' = Ev.res /\ Ev.res \in {"ok", "err"}
            /\ Ev.got <= Ev.room
            /\ (res' = "ok" => got' = Ev.total) /\ (Ev.res = "ok" => Ev.same)
            /\ (Ev.strict => (res' = "err" => room' < Ev.total) /\ Ev.prefix)
\* there is no such place
TNowhere == IsEvent("Nowhere") /\ Ev.res = "err" /\ res' = "err" /\ UNCHANGED <<room, got>>
\* what else was left lying about
TLeft == IsEvent("Left") /\ Ev.files = 0 /\ UNCHANGED <<room, got, res>>
TraceNext == TFull \/ TLimited \/ TNowhere \/ TLeft
TraceSpec == TraceInit /\ [][TraceNext]_<<room, got, res, c, l>>
====
