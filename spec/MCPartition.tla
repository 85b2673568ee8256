---- MODULE MCPartition ----
(* Every labelled table of up to MaxRows rows; repeatedly split off one part of a decomposition and keep
   working on it. Parts lose nothing and grouped counts add up to the plain ones. *)
EXTENDS Partition, SequencesExt
CONSTANTS MaxRows, Cols, Vals
VARIABLE lost   \* rows split off so far
Tables == UNION {[1..n -> [1..Cols -> Vals]] : n \in 0..MaxRows}
N0 == Cardinality(Vals)
Init == /\ tab \in Tables
        /\ ord = [v \in Vals |-> 2 * v]
        /\ nam = [k \in 1..Cols |-> [v \in Vals |-> IF v = 3 THEN "b" ELSE "a"]]   \* values 1 and 2 print alike
        /\ cls = Cols /\ lost = 0
KeepPart(k, n) == LET in(x) == Group(k, x) = n IN
   tab' = Sub(in) /\ lost' = lost + Len(tab) - Len(tab') /\ UNCHANGED <<ord, nam, cls>>
KeepSide(k, thr, s) == LET in(x) == Side(k, thr, x) = s IN
   tab' = Sub(in) /\ lost' = lost + Len(tab) - Len(tab') /\ UNCHANGED <<ord, nam, cls>>
Next == \E k \in 1..Cols : (\E n \in {"a", "b"} : KeepPart(k, n)) \/ (\E t \in {1, 3, 5}, s \in {"0", "1"} : KeepSide(k, t, s))
Spec == Init /\ [][Next]_<<pvars, lost>>
PartNames(k) == SetToSeq({Group(k, x) : x \in Rng(tab)})
TheParts(k) == [i \in 1..Len(PartNames(k)) |-> [name |-> PartNames(k)[i],
     rows |-> LET in(x) == Group(k, x) = PartNames(k)[i] IN Reduced(Sub(in), k)]]
Count(S) == [i \in 1..2 |-> [name |-> <<"a", "b">>[i], n |-> Cardinality({j \in S : nam[cls][tab[j][cls]] = <<"a", "b">>[i]})]]
TheGroups(k) == [i \in 1..Len(PartNames(k)) |-> [name |-> PartNames(k)[i],
     counts |-> Count({j \in 1..Len(tab) : Group(k, tab[j]) = PartNames(k)[i]})]]
Exists == \A k \in 1..Cols : LET key(x) == Group(k, x) IN PartsOf(TheParts(k), k, key) /\ GroupsOf(TheGroups(k), key)
\* per class, the groups' counts add up to the plain distribution
AddUp == \A k \in 1..Cols, n \in {"a", "b"} :
   Total([i \in 1..Len(TheGroups(k)) |-> At(TheGroups(k)[i].counts, n)]) = At(Count(1..Len(tab)), n)
\* a decomposition with a row in the wrong part, or dropped, is not accepted
Tight == \A k \in 1..Cols : LET P == TheParts(k) key(x) == Group(k, x) IN
   \A i \in 1..Len(P) : P[i].rows # <<>> => ~PartsOf([P EXCEPT ![i].rows = Tail(@)], k, key)
Sides == \A k \in 1..Cols, x \in Rng(tab) : Side(k, 1, x) = "1" /\ (Side(k, 5, x) = "1" => Side(k, 3, x) = "1")
====
