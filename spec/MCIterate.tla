---- MODULE MCIterate ----
EXTENDS Iterate
CONSTANT MaxRows
VARIABLE seen  \* rows delivered in this iteration
Init == table = <<>> /\ pos = 0 /\ state = "idle" /\ seen = <<>>
Next == \/ \E n \in 0..MaxRows : Begin([r \in 1..n |-> r * 10]) /\ seen' = <<>>
        \/ \E r \in 1..MaxRows, more, fails \in BOOLEAN : r <= Len(table) /\ Visit(r, table[r], more, fails) /\ seen' = Append(seen, r)
        \/ \E f \in BOOLEAN : End(f) /\ UNCHANGED seen
        \/ Reset /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<ivars, seen>> /\ WF_<<ivars, seen>>(Next)
EachOnceInOrder == seen = [i \in 1..Len(seen) |-> i] /\ Len(seen) = (IF state = "idle" THEN Len(seen) ELSE pos)
CompleteUnlessStopped == [][state = "running" /\ state' = "ended" => pos = Len(table)]_<<ivars, seen>>
Terminates == state = "running" ~> state = "ended"
====
