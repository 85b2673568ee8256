---- MODULE TraceKit ----
(* Common part of every trace specification: the recorded cases, and where we are in them.
   A case is accepted exactly when some behaviour of the specification consumes all its events;
   the runner collects the DONE lines. Each case is an initial state of its own, so that TLC's
   workers share the work and one rejected case does not hide the others. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Explain == "VERIF_EXPLAIN" \in DOMAIN IOEnv

VARIABLES c,   \* index of the case
          l    \* index of the next event of the case

CaseInit == c \in 1..Len(Cases) /\ l = 1
Ev == Cases[c].ev[l]
IsEvent(n) == /\ l <= Len(Cases[c].ev)
              /\ Ev.e = n
              /\ l' = l + 1
              /\ c' = c
Has(f) == f \in DOMAIN Ev
Done == /\ (l = Len(Cases[c].ev) + 1) => PrintT(<<"DONE", Cases[c].id>>)
        /\ Explain => PrintT(<<"AT", l>>)
====
