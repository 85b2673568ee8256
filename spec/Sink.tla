---- MODULE Sink ----
(* Something is written to a place which takes only so many units and then fails for good. room: how many it takes
   (the content may be shorter); got: what has arrived; res: what the caller is told ("none": not yet). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES room, got, res
\* Success is told only when everything arrived, and what arrived is the beginning of the content.
Told(len) == res = "ok" => got = len
Fair(len) == res = "err" => room < len
====
