---- MODULE MCSink ----
(* A writer with two buffers, one behind the other (an encoder over a compressor), flushed when full and at the end;
   every flush may fail part of the way. Broken: the last flush's failure, or a failure in the middle, is not looked at. *)
EXTENDS Sink
CONSTANTS Len0, MaxLen, B1, B2, DropLast, DropMiddle
VARIABLES len, left, buf1, buf2, bad
vars == <<room, got, res, len, left, buf1, buf2, bad>>
Init == /\ len \in Len0..MaxLen /\ room \in 0..MaxLen /\ left = len /\ buf1 = 0 /\ buf2 = 0 /\ got = 0 /\ res = "none" /\ bad = FALSE
Min(a, b) == IF a < b THEN a ELSE b
\* n units go out to the device
Out(n, drop) == LET k == Min(n, room - got) IN got' = got + k /\ bad' = (bad \/ (k < n /\ ~drop))
Put == /\ res = "none" /\ left > 0 /\ buf1 < B1 /\ ~bad /\ left' = left - 1 /\ buf1' = buf1 + 1 /\ UNCHANGED <<room, got, res, len, buf2, bad>>
Spill1 == /\ res = "none" /\ (buf1 = B1 \/ left = 0) /\ buf1 > 0 /\ buf2 + buf1 <= B2 /\ buf2' = buf2 + buf1 /\ buf1' = 0 /\ UNCHANGED <<room, got, res, len, left, bad>>
Spill2 == /\ res = "none" /\ ~bad /\ buf2 > 0 /\ (buf2 + buf1 > B2)
          /\ Out(buf2, DropMiddle) /\ buf2' = 0 /\ UNCHANGED <<room, res, len, left, buf1>>
Last == /\ res = "none" /\ ~bad /\ left = 0 /\ buf1 = 0 /\ buf2 > 0 /\ Out(buf2, DropLast) /\ buf2' = 0 /\ UNCHANGED <<room, res, len, left, buf1>>
Close == /\ res = "none" /\ (bad \/ (left = 0 /\ buf1 = 0 /\ buf2 = 0)) /\ res' = (IF bad THEN "err" ELSE "ok") /\ UNCHANGED <<room, got, len, left, buf1, buf2, bad>>
Next == Put \/ Spill1 \/ Spill2 \/ Last \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Honest == Told(len)
NoCryWolf == Fair(len)
Answers == <>(res # "none")
====
