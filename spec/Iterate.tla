---- MODULE Iterate ----
(* Row iteration: the visitor is called on rows 1..n in order, each call delivering the row's cells;
   it ends when the visitor declines, fails, or the rows are used up, and a failure is reported.
   The visitor is the environment: it may answer anything at any row. *)
EXTENDS Integers, Sequences
VARIABLES table,  \* table[r]: the cells of row r as direct reads give them
          pos,    \* rows visited so far
          state   \* "idle", "running", "declined", "failed", "ended"
ivars == <<table, pos, state>>
Begin(t) == state = "idle" /\ table' = t /\ pos' = 0 /\ state' = "running"
Visit(r, cells, more, fails) ==
  /\ state = "running"
  /\ pos < Len(table)
  /\ r = pos + 1
  /\ cells = table[r]
  /\ pos' = r
  /\ state' = IF fails THEN "failed" ELSE IF more THEN "running" ELSE "declined"
  /\ UNCHANGED table
\* result: was the visitor's failure handed to the caller
End(failed) ==
  /\ \/ state \in {"declined", "failed"}
     \/ state = "running" /\ pos = Len(table)
  /\ failed = (state = "failed")
  /\ state' = "ended"
  /\ UNCHANGED <<table, pos>>
Reset == state = "ended" /\ state' = "idle" /\ UNCHANGED <<table, pos>>
====
