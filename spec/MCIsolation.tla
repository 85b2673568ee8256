---- MODULE MCIsolation ----
(* Every subsample of a small data set and every way to split it: the paths the finished tree gives are
   explained, the leaves hold the subsample, no branch is too deep. *)
EXTENDS Isolation
CONSTANTS N, Lims, TooDeep
VARIABLES pts, smp, lim, leaves, open
vars == <<pts, smp, lim, leaves, open>>
Pts == {<< <<0, 0>>, <<1, 0>>, <<1, 1>> >>, << <<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>> >>, << <<0, 0>>, <<1, 1>> >>}
Init == /\ pts \in Pts /\ smp \in [1..N -> 1..Len(pts)] /\ lim \in Lims
        /\ leaves = {} /\ open = {[S |-> 1..N, Q |-> 1..Len(pts), d |-> 0]}
Alike(S) == Cardinality({smp[i] : i \in S}) = 1
Limit == IF TooDeep THEN lim + 1 ELSE lim
Next == \E o \in open :
  /\ IF o.d >= Limit \/ Alike(o.S) THEN leaves' = leaves \cup {o} /\ open' = open \ {o}
     ELSE /\ leaves' = leaves
          /\ \E f \in 1..2 : \E v \in {pts[smp[i]][f] : i \in o.S} :
               LET L == {i \in o.S : pts[smp[i]][f] <= v} IN
               /\ L # o.S
               /\ \E w \in {pts[q][f] : q \in o.Q} :   \* the threshold lies between v and the next sampled value
                    /\ w >= v /\ \A i \in o.S \ L : pts[smp[i]][f] > w
                    /\ open' = (open \ {o}) \cup {[S |-> L, Q |-> {q \in o.Q : pts[q][f] <= w}, d |-> o.d + 1],
                                                  [S |-> o.S \ L, Q |-> {q \in o.Q : pts[q][f] > w}, d |-> o.d + 1]}
  /\ UNCHANGED <<pts, smp, lim>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Path(q) == LET o == CHOOSE o \in leaves : q \in o.Q IN o.d * 1000000 + Corr(Cardinality(o.S))
Explained == open = {} => Explains(pts, [q \in 1..Len(pts) |-> Path(q)], Len(pts), N, lim)
Holds == open = {} => \A q \in 1..Len(pts) : Cardinality({o \in leaves : q \in o.Q}) = 1
Terminates == <>(open = {})
====
