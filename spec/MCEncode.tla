---- MODULE MCEncode ----
EXTENDS Encode, TLC, Json, Randomization
CONSTANTS Labels, MaxHandles, Depth, Gen
VARIABLES hist
vars == <<dict, hist>>
H(e) == hist' = IF Gen THEN Append(hist, e) ELSE hist
Init == dict = <<<<>>>> /\ hist = <<>>
Hs == 1..Len(dict)
DoEnc == \E h \in Hs, x \in Labels : (\E k \in 1..(Cardinality(Labels) + 1) : Enc(h, x, k)) /\ H([op |-> "Enc", h |-> h, x |-> x])
DoLook == \E h \in Hs, x \in Labels : (\E k \in 0..Cardinality(Labels) : Look(h, x, k)) /\ H([op |-> "Look", h |-> h, x |-> x])
DoDec == \E h \in Hs : \E k \in 1..Len(dict[h]) : Dec(h, k, dict[h][k]) /\ H([op |-> "Dec", h |-> h, code |-> k])
DoRestore == Len(dict) < MaxHandles /\ \E h \in Hs : Restore(h) /\ H([op |-> "Restore", h |-> h])
DoFresh == Len(dict) < MaxHandles /\ Fresh /\ H([op |-> "Fresh"])
Next == DoEnc \/ DoLook \/ DoDec \/ DoRestore \/ DoFresh
Spec == Init /\ [][Next]_vars
\* One code per label, one label per code, and neither ever changes.
OneToOne == \A h \in Hs : Cardinality({dict[h][i] : i \in 1..Len(dict[h])}) = Len(dict[h])
Stable == [][\A h \in Hs : Len(dict'[h]) >= Len(dict[h]) /\ SubSeq(dict'[h], 1, Len(dict[h])) = dict[h]]_vars
\* Restored attributes go their own way: only one handle changes at a time.
Apart == [][Cardinality({h \in Hs : dict'[h] # dict[h]}) <= 1]_vars
\* Generator
More == Len(hist) < Depth
GFinish == Len(hist) = Depth /\ hist' = Append(hist, [op |-> "End"]) /\ UNCHANGED dict
GenNext == (More /\ (DoEnc \/ DoLook \/ DoDec \/ DoRestore \/ DoFresh)) \/ GFinish
GenSpec == Init /\ [][GenNext]_vars
Emit == (Len(hist) = Depth + 1) => PrintT("SCN " \o ToJson(hist))
====
