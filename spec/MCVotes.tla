---- MODULE MCVotes ----
(* Which classes may win a vote among the k nearest when distances tie: the counting by which traces are
   judged agrees with trying every choice of ties. The rows stand on a line, by their distance to the target. *)
EXTENDS Neighbours
CONSTANTS N, D, Classes
VARIABLES rows, cls, k, weighted
vars == <<rows, cls, k, weighted>>
Init == /\ rows \in {[i \in 1..N |-> <<f[i]>>] : f \in [1..N -> 0..D]}
        /\ cls \in [1..N -> 1..Classes] /\ k \in 1..N /\ weighted \in BOOLEAN
Spec == Init /\ [][UNCHANGED vars]_vars
SameVotes == \A w \in 1..Classes : MayPredict("manhattan", <<0>>, rows, cls, k, weighted, w) = MayPredictSlow("manhattan", <<0>>, rows, cls, k, weighted, w)
SomeWinner == \E w \in 1..Classes : MayPredict("manhattan", <<0>>, rows, cls, k, weighted, w)
====
