---- MODULE MCDiscretise ----
EXTENDS Discretise

CONSTANTS MaxVal, MaxLen, MaxBins
VARIABLE over
vars == <<dvars, over>>
Init == vals = <<>> /\ clss = <<>> /\ cuts = {} /\ par = [minr |-> 2, maxr |-> 2, sig |-> 1, k |-> 2, mult |-> 1] /\ over = FALSE
Begin == vals = <<>> /\ \E n \in 1..MaxLen : \E vs \in {v \in [1..n -> 0..MaxVal] : \A i \in 1..(n - 1) : v[i] <= v[i + 1]} : \E ks \in [1..n -> 1..2], minr \in {2, 3}, maxr \in {3, 100}, sig \in {1, 4} :
           Column(vs, ks, [minr |-> minr, maxr |-> maxr, sig |-> sig, k |-> 2, mult |-> 1]) /\ UNCHANGED over
Round == vals # <<>> /\ ~over /\ Merge /\ UNCHANGED over
Stop == vals # <<>> /\ ~over /\ MayStop /\ over' = TRUE /\ UNCHANGED dvars
Next == Begin \/ Round \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* merging always comes to an end, and an ended run has no mergeable neighbours left
Ends == <>over
NoneLeft == over => MayStop
OnePlace == \A i \in 1..Len(vals) : CutOf(cuts, vals[i]) <= vals[i] /\ ~\E x \in cuts : CutOf(cuts, vals[i]) < x /\ x <= vals[i]
\* equal width: in range, ordered as the values, every bin as wide as the others
BinsOrdered == \A b \in 1..MaxBins, lo, hi \in 0..MaxVal : lo < hi => \A v, w \in 0..MaxVal :
   /\ BinOf(v, lo, hi, b) \in 0..b
   /\ v <= w => BinOf(v, lo, hi, b) <= BinOf(w, lo, hi, b)
   /\ (lo <= v /\ v < hi) => LET k == BinOf(v, lo, hi, b) IN k < b /\ k * (hi - lo) <= (v - lo) * b /\ (v - lo) * b < (k + 1) * (hi - lo)
ASSUME BinsOrdered
====
