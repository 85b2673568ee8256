---- MODULE MCOneVsAll ----
(* The loop which asks the members in turn and keeps the best answer so far, for every training set of two
   rows, and every scoring; members are ideal on the rows they have seen, arbitrary elsewhere. *)
EXTENDS OneVsAll
CONSTANTS NC, Top,
          Strict   \* FALSE: the loop compares with the previous member's score, not with the best so far
VARIABLES k, best, cls, last, seen
vars == <<ovars, k, best, cls, last, seen>>
Datas == {[cells |-> <<<<1>>, <<2>>>>, cls |-> c, classes |-> NC] : c \in [1..2 -> 0..NC - 1]}
Init == data = [cells |-> <<>>, cls |-> <<>>, classes |-> 0] /\ got = <<>> /\ scores = <<>> /\ stage = "new" /\ k = 0 /\ best = 0 /\ cls = 0 /\ last = 0 /\ seen \in BOOLEAN
Rest == UNCHANGED <<k, best, cls, last, seen>>
Fit == \E d \in Datas : FitCall(d) /\ Rest
Train == \E m \in 0..NC - 1 : FitMember(m, data.cells, [i \in 1..2 |-> IF data.cls[i] = m THEN 1 ELSE 0]) /\ Rest
Ready == FitReturn /\ Rest
Call == PredictCall /\ k' = 0 /\ best' = 0 /\ cls' = 0 /\ last' = 0 /\ UNCHANGED seen
\* seen: the row asked about is the first training row, which ideal members score 1 and 0
Ask == /\ stage = "predict" /\ k < NC
       /\ \E s \in 0..Top : /\ seen => s = Top * Target(data, k)[1]
                            /\ AskMember(k, <<s>>)
                            /\ IF s > (IF Strict THEN best ELSE last) THEN best' = s /\ cls' = k ELSE UNCHANGED <<best, cls>>
                            /\ last' = s
       /\ k' = k + 1 /\ UNCHANGED seen
Return == stage = "predict" /\ k = NC /\ stage' = "ready" /\ UNCHANGED <<data, got, scores, k, best, cls, last, seen>>
Next == Fit \/ Train \/ Ready \/ Call \/ Ask \/ Return
Spec == Init /\ [][Next]_vars
Right == (stage = "predict" /\ k = NC) => Highest(scores, 1, cls) /\ (seen => cls = data.cls[1])
====
