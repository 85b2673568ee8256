---- MODULE TraceKeyed ----
EXTENDS Keyed, TraceKit
kv == <<kvars, g, store>>
TraceInit == CaseInit /\ items = <<>> /\ state = "none" /\ g = "none" /\ store = "none"
D(k, x) == IF k = "grid" THEN [attrs |-> x.attrs, cls |-> Rng(x.cls), rows |-> x.rows] ELSE x
Rest == UNCHANGED <<g, store>>
TCreate == IsEvent("Create") /\ Ev.res = "ok" /\ Create /\ Rest
TWrite == IsEvent("Write") /\ Ev.res = "ok" /\ Write(Ev.key, Ev.kind, D(Ev.kind, Ev.val)) /\ Rest
TClose == IsEvent("Close") /\ Ev.res = "ok" /\ Close /\ Rest
\* every reader sees what the file was created with
TOpen == IsEvent("Open") /\ state = "closed" /\ Ev.res = "ok" /\ Ev.meta = Ev.expect /\ UNCHANGED kv
TRead == /\ IsEvent("Read") /\ state = "closed" /\ UNCHANGED kv
         /\ MayGet(Ev.key, Ev.kind, Ev.res, IF Ev.res = "ok" THEN D(Ev.kind, Ev.val) ELSE "nothing")
\* a restored attribute is matched with the equal one of a data set, or with none
TMatch == /\ IsEvent("Match") /\ UNCHANGED kv
          /\ Ev.res = IF \E i \in 1..Len(Ev.grid) : Ev.grid[i] = Ev.attr THEN "ok" ELSE "err"
          /\ Ev.res = "ok" => Ev.own = TRUE /\ Ev.val = Ev.attr
TraceNext == TCreate \/ TWrite \/ TClose \/ TOpen \/ TRead \/ TMatch
TraceSpec == TraceInit /\ [][TraceNext]_<<kv, c, l>>
====
