---- MODULE MCTable ----
(* Every table of up to MaxRows rows over Vals, and every behaviour of the rearranging actions on it:
   two sorts of one table agree on the keys, sorting twice changes no key, splits and shuffles lose nothing. *)
EXTENDS Table
CONSTANTS MaxRows, Cols, Vals
VARIABLE start, last
Rows == [1..Cols -> Vals]
Tables == UNION {[1..n -> Rows] : n \in 0..MaxRows}
Init == tab \in Tables /\ ord = [v \in 1..3 |-> v] /\ start = tab /\ last = "none"
Perms(s) == {[i \in 1..Len(s) |-> s[p[i]]] : p \in {q \in [1..Len(s) -> 1..Len(s)] : Cardinality(Rng(q)) = Len(s)}}
Next == \/ \E out \in Perms(tab), asc \in BOOLEAN : SortTo(out, <<1>>, asc, TRUE) /\ last' = (IF asc THEN "asc1" ELSE "desc1") /\ UNCHANGED start
        \/ \E out \in Perms(tab) : SortTo(out, <<2, 1>>, TRUE, TRUE) /\ last' = "asc21" /\ UNCHANGED start
        \/ \E out \in Perms(tab) : ShuffleTo(out, TRUE) /\ last' = "none" /\ UNCHANGED start
        \/ \E cut \in 0..Len(tab), out \in Perms(tab) : SplitInto(SubSeq(out, 1, cut), SubSeq(out, cut + 1, Len(out)), out) /\ last' = "none" /\ UNCHANGED start
Spec == Init /\ [][Next]_<<tvars, start, last>>
Conserved == SameBag(start, tab)
\* The key sequence of a sorted table is determined.
OneOrder == last = "asc1" => \A out \in Perms(tab) : Ordered(out, <<1>>, TRUE) => Keys(out, <<1>>) = Keys(tab, <<1>>)
Mirror == last = "asc21" => \A out \in Perms(tab) : Ordered(out, <<2, 1>>, FALSE) =>
             Keys(out, <<2, 1>>) = [i \in 1..Len(tab) |-> Keys(tab, <<2, 1>>)[Len(tab) + 1 - i]]
====
