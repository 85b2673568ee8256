---- MODULE MCCrossFold ----
(* The rows are dealt to folds at random, then each fold in turn is held out. *)
EXTENDS CrossFold
CONSTANTS N, K,
          Held    \* FALSE: every fold is trained on
VARIABLES deal, i, phase
vars == <<cvars, deal, i, phase>>
Ordered(S) == SelectSeq([j \in 1..N |-> j], LAMBDA j : j \in S)
Init == /\ rows = N /\ rounds = K /\ cls \in [1..N -> 1..2] /\ train = {} /\ folds = <<>> /\ mats = <<>>
        /\ deal \in [1..N -> 1..K] /\ i = 1 /\ phase = "fit"
Fit == phase = "fit" /\ i <= K /\ train' = {Ordered({r \in 1..N : ~Held \/ deal[r] # i})} /\ phase' = "predict" /\ UNCHANGED <<rows, rounds, cls, folds, mats, deal, i>>
Predict == /\ phase = "predict" /\ phase' = "fit" /\ i' = i + 1
           /\ LET te == Ordered({r \in 1..N : deal[r] = i}) IN \E p \in [1..Len(te) -> 1..2] :
                folds' = Append(folds, Range(te)) /\ mats' = Append(mats, Counted([j \in 1..Len(te) |-> cls[te[j]]], p))
           /\ train' = {} /\ UNCHANGED <<rows, rounds, cls, deal>>
Next == Fit \/ Predict
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Follows == [][(train' # {} /\ RoundFit(CHOOSE t \in train' : TRUE)) \/ \E te \in {Ordered({r \in 1..N : deal[r] = i})}, p \in UNION {[1..n -> 1..2] : n \in 0..N} : Len(p) = Len(te) /\ RoundPredict(te, p)]_cvars
Complete == i > K => ENABLED Return(mats) /\ SumIn([j \in 1..K |-> Total(mats[j])], 1..K) = N
Ends == <>(i > K)
====
