---- MODULE MCNeighbours ----
(* Branch-and-bound search over a tree of half-spaces, as in the kd-tree: points are stored in inner
   nodes and leaves; the far side of a node may be skipped only when k candidates are held and the node's
   plane is no nearer than the worst of them. Sound = FALSE skips it when the plane is farther than the best,
   and must be caught. *)
EXTENDS Neighbours
CONSTANTS N, M, KMax, Sound, MetricNames
VARIABLES pts, target, k, m, todo, best, seen
vars == <<pts, target, k, m, todo, best, seen>>
Pt == [1..2 -> 0..M]
Init == /\ pts \in [1..N -> Pt] /\ target \in Pt /\ k \in 1..KMax /\ m \in MetricNames
        /\ todo = {[s |-> 1..N, d |-> 1]} /\ best = {} /\ seen = {}
\* one node: its own point p splits the others along d into low (<=) and high (>)
Worst == CHOOSE i \in best : \A j \in best : Closer(m, target, pts[j], pts[i])
Offer(i) == IF Cardinality(best) < k THEN best \cup {i}
            ELSE IF Nearer(m, target, pts, i, Worst) THEN (best \ {Worst}) \cup {i} ELSE best
\* the nearest a point beyond the plane through p can be: the same target moved onto the plane
OnPlane(p, d) == [target EXCEPT ![d] = pts[p][d]]
CanSkip(p, d) == /\ Cardinality(best) = k
                 /\ IF Sound THEN Closer(m, target, pts[Worst], OnPlane(p, d))
                    ELSE ~Closer(m, target, OnPlane(p, d), pts[CHOOSE i \in best : \A j \in best : Closer(m, target, pts[i], pts[j])])
Sub(S, d) == IF S = {} THEN {} ELSE {[s |-> S, d |-> d]}
Visit == \E r \in todo : \E p \in r.s :
   LET low == {q \in r.s \ {p} : pts[q][r.d] <= pts[p][r.d]}
       high == (r.s \ {p}) \ low
       nearSide == IF target[r.d] <= pts[p][r.d] THEN low ELSE high
       farSide == IF target[r.d] <= pts[p][r.d] THEN high ELSE low
       b == Offer(p) IN
   /\ best' = b /\ seen' = seen \cup {p}
   /\ todo' = (todo \ {r}) \cup Sub(nearSide, 3 - r.d) \cup Sub(farSide, 3 - r.d)
   /\ UNCHANGED <<pts, target, k, m>>
\* A region all of whose points lie beyond some visited point's plane is skipped.
Skip == \E r \in todo, p \in seen, d \in 1..2 :
   /\ (\A q \in r.s : pts[q][d] > pts[p][d] /\ target[d] <= pts[p][d]) \/ (\A q \in r.s : pts[q][d] <= pts[p][d] /\ target[d] > pts[p][d])
   /\ CanSkip(p, d)
   /\ todo' = todo \ {r} /\ UNCHANGED <<pts, target, k, m, best, seen>>
Next == Visit \/ Skip
Spec == Init /\ [][Next]_vars
Correct == todo = {} => IsNearest(m, target, pts, k, best)
\* The set comprehension used to judge traces agrees with the definition.
SameSets == seen = {} => /\ {S \in SUBSET (1..N) : IsNearest(m, target, pts, k, S)} = Nearest(m, target, pts, k)
                        /\ \A S \in SUBSET (1..N) : IsNearestFast(m, target, pts, k, S) = IsNearest(m, target, pts, k, S)
====
