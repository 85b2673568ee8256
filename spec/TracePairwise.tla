---- MODULE TracePairwise ----
(* One event per pair of vectors, shape (row or column) and function. A recorded distance is projected to
   the integer of Pairwise.Measure; anything that is not within rounding of an integer is recorded as a
   number no integer equals. back is the same with the vectors swapped. *)
EXTENDS Pairwise, TraceKit
VARIABLE last
TraceInit == CaseInit /\ last = <<>>
TDist == /\ IsEvent("Dist") /\ last' = Ev.x
         /\ Ev.out = Measure(Ev.m, Ev.x, Ev.y)
         /\ Ev.back = Ev.out
         /\ Ev.inrange = TRUE
         /\ Ev.self = (IF Ev.m = "cosine" THEN Norm2(Ev.x) * Norm2(Ev.x) ELSE 0)
TKernel == /\ IsEvent("Kernel") /\ last' = Ev.x
           /\ Ev.back = Ev.out
           /\ CASE Ev.m = "inner" -> Ev.out = Dot(Ev.x, Ev.y)
                [] Ev.m = "poly" -> Ev.out = PolyK(Ev.x, Ev.y, Ev.degree)
                [] Ev.m = "polydist" -> Ev.out = SqPolyD(Ev.x, Ev.y, Ev.degree)
                [] Ev.m = "rbf" -> Ev.out = SqEuclid(Ev.x, Ev.y)
TMismatch == IsEvent("Mismatch") /\ Ev.out = "panic" /\ UNCHANGED last
TraceNext == TDist \/ TKernel \/ TMismatch
TraceSpec == TraceInit /\ [][TraceNext]_<<last, c, l>>
====
