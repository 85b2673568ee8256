---- MODULE MCClusterMap ----
(* Comparing by building a renaming point by point, and then comparing the renamed clusters. *)
EXTENDS ClusterMap, TLC
CONSTANTS P, K,
          Sizes  \* FALSE: a renamed cluster need only be part of the other
VARIABLES a, b, left, ren, ok, out
vars == <<a, b, left, ren, ok, out>>
Seqs == UNION {[1..n -> 1..P] : n \in 0..2}
Maps == UNION {[1..n -> {[id |-> 0, pts |-> s] : s \in Seqs}] : n \in 0..K}
Numbered(m) == [i \in DOMAIN m |-> [id |-> i, pts |-> m[i].pts]]
Init == /\ \E x, y \in Maps : a = Numbered(x) /\ b = Numbered(y)
        /\ left = Points(a) /\ ren = <<>> /\ ok = TRUE /\ out = "none"
Of(m, p) == CHOOSE i \in DOMAIN m : p \in Range(m[i].pts)
Refuse == /\ out = "none" /\ (~Valid(a) \/ ~Valid(b) \/ Len(a) # Len(b) \/ ~ok \/ Points(a) \ Points(b) # {})
          /\ out' = "different" /\ UNCHANGED <<a, b, left, ren, ok>>
Rename == /\ out = "none" /\ Valid(a) /\ Valid(b) /\ Len(a) = Len(b) /\ ok /\ Points(a) \subseteq Points(b)
          /\ \E p \in left : LET i == Of(a, p) j == Of(b, p) IN
                /\ left' = left \ {p}
                /\ IF j \in DOMAIN ren THEN ok' = (ren[j] = i) /\ UNCHANGED ren ELSE ren' = (j :> i) @@ ren /\ UNCHANGED ok
          /\ UNCHANGED <<a, b, out>>
Decide == /\ out = "none" /\ Valid(a) /\ Valid(b) /\ Len(a) = Len(b) /\ ok /\ Points(a) \subseteq Points(b) /\ left = {}
          /\ out' = IF \A j \in DOMAIN b : b[j].pts = <<>> \/
                         (IF j \in DOMAIN ren THEN Range(b[j].pts) \subseteq Range(a[ren[j]].pts) /\ (Sizes => Len(b[j].pts) = Len(a[ren[j]].pts)) ELSE FALSE)
                    THEN "same" ELSE "different"
          /\ UNCHANGED <<a, b, left, ren, ok>>
Next == Refuse \/ Rename \/ Decide
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == (out = "same" => Equal(a, b)) /\ (out = "different" => ~Equal(a, b))
Ends == <>(out # "none")
====
