---- MODULE Bagging ----
(* What a user of a bagged model sees, members being trained and asked at the same time:
   every member is trained exactly once between the call and the return of Fit, on a sample of
   its own, and asked exactly once between the call and the return of Predict, on the features
   it was trained on. Predict answers with a majority class per row, or fails with a member. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES phase,   \* "new", "fit", "ready", "predict"
          st,      \* per member: "idle", "fitting", "fitted"
          drawn,   \* per member: what it was trained on
          ask,     \* per member: "idle", "busy", "answered", "failed"
          ans      \* per member: its class for each row
bvars == <<phase, st, drawn, ask, ans>>
Members == DOMAIN st
None == [rows |-> <<>>, feats |-> <<>>]
Fresh(n) == /\ phase = "new" /\ st = [m \in 1..n |-> "idle"] /\ drawn = [m \in 1..n |-> None]
            /\ ask = [m \in 1..n |-> "idle"] /\ ans = [m \in 1..n |-> <<>>]
FitCall == /\ phase \in {"new", "ready"} /\ phase' = "fit" /\ st' = [m \in Members |-> "idle"]
           /\ drawn' = [m \in Members |-> None] /\ UNCHANGED <<ask, ans>>
FitStart(m, d) == phase = "fit" /\ st[m] = "idle" /\ st' = [st EXCEPT ![m] = "fitting"] /\ drawn' = [drawn EXCEPT ![m] = d] /\ UNCHANGED <<phase, ask, ans>>
FitEnd(m) == phase = "fit" /\ st[m] = "fitting" /\ st' = [st EXCEPT ![m] = "fitted"] /\ UNCHANGED <<phase, drawn, ask, ans>>
FitReturn == /\ phase = "fit" /\ \A m \in Members : st[m] = "fitted"
             /\ phase' = "ready" /\ UNCHANGED <<st, drawn, ask, ans>>
PredictCall == /\ phase = "ready" /\ phase' = "predict" /\ ask' = [m \in Members |-> "idle"]
               /\ ans' = [m \in Members |-> <<>>] /\ UNCHANGED <<st, drawn>>
AskStart(m, feats) == phase = "predict" /\ ask[m] = "idle" /\ feats = drawn[m].feats /\ ask' = [ask EXCEPT ![m] = "busy"] /\ UNCHANGED <<phase, st, drawn, ans>>
AskEnd(m, a) == phase = "predict" /\ ask[m] = "busy" /\ ask' = [ask EXCEPT ![m] = "answered"] /\ ans' = [ans EXCEPT ![m] = a] /\ UNCHANGED <<phase, st, drawn>>
AskFail(m) == phase = "predict" /\ ask[m] = "busy" /\ ask' = [ask EXCEPT ![m] = "failed"] /\ UNCHANGED <<phase, st, drawn, ans>>
Votes(r, c) == Cardinality({m \in Members : ans[m][r] = c})
Majority(res, rows) == /\ Len(res) = rows
                       /\ \A r \in 1..rows : \A c \in {ans[m][r] : m \in Members} : Votes(r, res[r]) >= Votes(r, c)
PredictReturn(res, rows) == /\ phase = "predict" /\ \A m \in Members : ask[m] = "answered"
                            /\ Majority(res, rows) = TRUE /\ phase' = "ready" /\ UNCHANGED <<st, drawn, ask, ans>>
\* a failure is reported; members not yet asked need not be
PredictError == /\ phase = "predict" /\ \E m \in Members : ask[m] = "failed"
                /\ \A m \in Members : ask[m] # "busy"
                /\ phase' = "ready" /\ UNCHANGED <<st, drawn, ask, ans>>
====
