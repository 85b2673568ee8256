---- MODULE MCPrediction ----
(* The loop inside a prediction, against Prediction: rows are scored by members and the votes counted in
   a table which is cleared for each row. And the generator of histories for the real classifiers. *)
EXTENDS Prediction, TLC, Json, Randomization
CONSTANTS Labels, Members, Batch,
          Clear,   \* FALSE: the table of votes is not cleared between rows
          Place,   \* FALSE: a row's answer is put where the previous row's was when the same
          PoolSize, Depth
VARIABLES members, batch, out, votes, i, phase, hist
vars == <<pvars, members, batch, out, votes, i, phase, hist>>
None == [lb \in Labels |-> 0]
Init == /\ pool = <<<<1>>, <<2>>, <<1>>>> /\ train = [ids |-> <<1, 2>>, labels |-> <<0, 1>>, real |-> FALSE] /\ memo = {}
        /\ members \in [1..Members -> [{<<1>>, <<2>>} -> Labels]]
        /\ batch = <<>> /\ out = <<>> /\ votes = None /\ i = 0 /\ phase = "idle" /\ hist = <<>>
Call == /\ phase = "idle" /\ Len(hist) < 2
        /\ batch' \in UNION {[1..n -> 1..3] : n \in 1..Batch} /\ out' = <<>> /\ i' = 1 /\ votes' = None /\ phase' = "rows"
        /\ UNCHANGED <<pvars, members, hist>>
Row == /\ phase = "rows" /\ i <= Len(batch)
       /\ LET v == [lb \in Labels |-> votes[lb] + Cardinality({m \in 1..Members : members[m][pool[batch[i]]] = lb})]
              best == CHOOSE lb \in Labels : \A x \in Labels : v[lb] > v[x] \/ (v[lb] = v[x] /\ lb <= x)
          IN /\ out' = IF Place \/ out = <<>> \/ out[Len(out)] # best THEN Append(out, best) ELSE out
             /\ votes' = IF Clear THEN None ELSE v
       /\ i' = i + 1 /\ UNCHANGED <<pvars, members, batch, phase, hist>>
Return == /\ phase = "rows" /\ i > Len(batch) /\ phase' = "idle" /\ hist' = Append(hist, [ids |-> batch, answers |-> out])
          /\ UNCHANGED <<pvars, members, batch, out, votes, i>>
Spec == Init /\ [][Call \/ Row \/ Return]_vars
\* every finished call is one that Prediction allows, after the calls before it
Answered == /\ \A h \in 1..Len(hist) : Len(hist[h].answers) = Len(hist[h].ids)
            /\ Functional(UNION {Pairs(hist[h].ids, hist[h].answers) : h \in 1..Len(hist)})
\* ---- generator ----
One(S) == RandomSubset(1, S)
Pick(n) == [k \in 1..n |-> RandomElement(1..PoolSize)]
Rec(e) == hist' = Append(hist, e) /\ UNCHANGED <<pvars, members, batch, out, votes, i, phase>>
GInit == /\ pool = <<>> /\ train = Nothing /\ memo = {} /\ members = <<>> /\ batch = <<>> /\ out = <<>> /\ votes = <<>> /\ i = 0 /\ phase = "gen" /\ hist = <<>>
Fitted == \E k \in DOMAIN hist : hist[k].op = "Fit"
GFit == \E n \in One(8..16) : Rec([op |-> "Fit", ids |-> Pick(n)])
GPredict == Fitted /\ \E n \in One({1, 1, 2, 3, 5, 9, 20}), f \in One({"dense", "view", "columns"}) : Rec([op |-> "Predict", ids |-> Pick(n), form |-> f])
\* the same rows as an earlier batch, from the other end
GAgain == Fitted /\ \E f \in One({"dense", "view", "columns"}) :
            LET ks == {k \in DOMAIN hist : hist[k].op = "Predict"} IN
            ks # {} /\ \E k \in One(ks) : LET s == hist[k].ids IN Rec([op |-> "Predict", ids |-> [j \in 1..Len(s) |-> s[Len(s) + 1 - j]], form |-> f])
GFinish == Len(hist) = Depth /\ Rec([op |-> "End"])
GenNext == (hist = <<>> /\ GFit) \/ (hist # <<>> /\ Len(hist) < Depth /\ (GPredict \/ GPredict \/ GAgain \/ (RandomElement(1..6) = 1 /\ GFit))) \/ GFinish
GenSpec == GInit /\ [][GenNext]_vars
Emit == (Len(hist) = Depth + 1) => PrintT("SCN " \o ToJson(hist))
====
