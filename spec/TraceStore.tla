---- MODULE TraceStore ----
EXTENDS Store, TraceKit
VARIABLES kind
sv == <<g, store, content, file, kind>>
TraceInit == CaseInit /\ g = "none" /\ store = "none" /\ content = "none" /\ file = "none" /\ kind = "none"
D(k, x) == IF k = "grid" THEN [attrs |-> x.attrs, cls |-> Rng(x.cls), rows |-> x.rows] ELSE x
TSave == IsEvent("Save") /\ Ev.ok = TRUE /\ kind' = Ev.kind /\ Save(D(Ev.kind, Ev.content)) /\ UNCHANGED <<g, store>>
TDamage == IsEvent("Damage") /\ Damage /\ UNCHANGED <<g, store, kind>>
TReplace == IsEvent("Replace") /\ Replace /\ UNCHANGED <<g, store, kind>>
\* One event per sweep of one sort of damage: res[i] is 0 for an error, k for content number k of outs
\* (anything else, a crash, is no step).
TLoads == /\ IsEvent("Loads") /\ UNCHANGED sv
          /\ \A i \in 1..Len(Ev.outs) : MayGive(kind, D(kind, Ev.outs[i]))
          /\ \A i \in 1..Len(Ev.res) : Ev.res[i] \in 0..Len(Ev.outs) /\ (Ev.res[i] = 0 => MayFail)
\* saving leaves the model's own predictions as they were
TStill == IsEvent("Still") /\ Same(kind, content, D(kind, Ev.content)) /\ UNCHANGED sv
TraceNext == TSave \/ TDamage \/ TReplace \/ TLoads \/ TStill
TraceSpec == TraceInit /\ [][TraceNext]_<<sv, c, l>>
====
