---- MODULE MCBagging ----
(* The concurrent implementation: one goroutine per member while fitting, which enters its features in
   a shared table under a lock; while predicting, workers take members from a bounded pipe and send
   answers over a bounded channel to one collector, and the main thread closes the channels in turn.
   It refines Bagging. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NM, NW, Cap, NR, NC,
          Locked,   \* FALSE: the table is read, changed and written back without a lock
          Patient   \* FALSE: the answers' channel is closed without waiting for the workers
M == 1..NM
W == 1..NW
VARIABLES phase, fpc, copy, table, pipe, next, pipeClosed, wpc, wm, votes, votesClosed, coll, tally, asked, ans, res, bad
vars == <<phase, fpc, copy, table, pipe, next, pipeClosed, wpc, wm, votes, votesClosed, coll, tally, asked, ans, res, bad>>
Answers == [M -> [1..NR -> 1..NC]]
Empty == [m \in {} |-> 0]
Init == /\ phase = "fit" /\ fpc = [m \in M |-> "draw"] /\ copy = [m \in M |-> Empty] /\ table = Empty
        /\ pipe = <<>> /\ next = 1 /\ pipeClosed = FALSE /\ wpc = [w \in W |-> "take"] /\ wm = [w \in W |-> 0]
        /\ votes = <<>> /\ votesClosed = FALSE /\ coll = "run" /\ tally = [r \in 1..NR |-> [c \in 1..NC |-> 0]]
        /\ asked = [m \in M |-> 0] /\ ans \in Answers /\ res = <<>> /\ bad = FALSE
Put(t, m) == [k \in DOMAIN t \cup {m} |-> IF k = m THEN m ELSE t[k]]
\* fitting
Draw(m) == phase = "fit" /\ fpc[m] = "draw" /\ fpc' = [fpc EXCEPT ![m] = "store"] /\ copy' = [copy EXCEPT ![m] = table]
           /\ UNCHANGED <<phase, table, pipe, next, pipeClosed, wpc, wm, votes, votesClosed, coll, tally, asked, ans, res, bad>>
Store(m) == phase = "fit" /\ fpc[m] = "store" /\ fpc' = [fpc EXCEPT ![m] = "train"] /\ table' = Put(IF Locked THEN table ELSE copy[m], m)
            /\ UNCHANGED <<phase, copy, pipe, next, pipeClosed, wpc, wm, votes, votesClosed, coll, tally, asked, ans, res, bad>>
Train(m) == phase = "fit" /\ fpc[m] = "train" /\ fpc' = [fpc EXCEPT ![m] = "trained"]
            /\ UNCHANGED <<phase, copy, table, pipe, next, pipeClosed, wpc, wm, votes, votesClosed, coll, tally, asked, ans, res, bad>>
FitDone == phase = "fit" /\ (\A m \in M : fpc[m] = "trained") /\ phase' = "predict"
           /\ UNCHANGED <<fpc, copy, table, pipe, next, pipeClosed, wpc, wm, votes, votesClosed, coll, tally, asked, ans, res, bad>>
\* predicting
Send == phase = "predict" /\ next <= NM /\ Len(pipe) < Cap /\ pipe' = Append(pipe, next) /\ next' = next + 1
        /\ UNCHANGED <<phase, fpc, copy, table, pipeClosed, wpc, wm, votes, votesClosed, coll, tally, asked, ans, res, bad>>
ClosePipe == phase = "predict" /\ next > NM /\ ~pipeClosed /\ pipeClosed' = TRUE
        /\ UNCHANGED <<phase, fpc, copy, table, pipe, next, wpc, wm, votes, votesClosed, coll, tally, asked, ans, res, bad>>
Take(w) == phase = "predict" /\ wpc[w] = "take" /\ pipe # <<>> /\ wm' = [wm EXCEPT ![w] = Head(pipe)] /\ pipe' = Tail(pipe)
           /\ wpc' = [wpc EXCEPT ![w] = "ask"]
           /\ UNCHANGED <<phase, fpc, copy, table, next, pipeClosed, votes, votesClosed, coll, tally, asked, ans, res, bad>>
Ask(w) == phase = "predict" /\ wpc[w] = "ask" /\ asked' = [asked EXCEPT ![wm[w]] = @ + 1] /\ wpc' = [wpc EXCEPT ![w] = "put"]
          /\ bad' = (bad \/ wm[w] \notin DOMAIN table)
          /\ UNCHANGED <<phase, fpc, copy, table, pipe, next, pipeClosed, wm, votes, votesClosed, coll, tally, ans, res>>
PutVote(w) == /\ phase = "predict" /\ wpc[w] = "put" /\ wpc' = [wpc EXCEPT ![w] = "take"]
              /\ IF votesClosed THEN bad' = TRUE /\ votes' = votes
                 ELSE Len(votes) < Cap /\ votes' = Append(votes, wm[w]) /\ bad' = bad
              /\ UNCHANGED <<phase, fpc, copy, table, pipe, next, pipeClosed, wm, votesClosed, coll, tally, asked, ans, res>>
Leave(w) == phase = "predict" /\ wpc[w] = "take" /\ pipe = <<>> /\ pipeClosed /\ wpc' = [wpc EXCEPT ![w] = "done"]
            /\ UNCHANGED <<phase, fpc, copy, table, pipe, next, pipeClosed, wm, votes, votesClosed, coll, tally, asked, ans, res, bad>>
CloseVotes == phase = "predict" /\ pipeClosed /\ ~votesClosed /\ (Patient => \A w \in W : wpc[w] = "done") /\ votesClosed' = TRUE
              /\ UNCHANGED <<phase, fpc, copy, table, pipe, next, pipeClosed, wpc, wm, votes, coll, tally, asked, ans, res, bad>>
Count == /\ phase = "predict" /\ coll = "run" /\ votes # <<>> /\ votes' = Tail(votes)
         /\ tally' = [r \in 1..NR |-> [tally[r] EXCEPT ![ans[Head(votes)][r]] = @ + 1]]
         /\ UNCHANGED <<phase, fpc, copy, table, pipe, next, pipeClosed, wpc, wm, votesClosed, coll, asked, ans, res, bad>>
CollDone == phase = "predict" /\ coll = "run" /\ votes = <<>> /\ votesClosed /\ coll' = "done"
            /\ UNCHANGED <<phase, fpc, copy, table, pipe, next, pipeClosed, wpc, wm, votes, votesClosed, tally, asked, ans, res, bad>>
Best(r, c) == tally[r][c] > 0 /\ \A d \in 1..NC : tally[r][c] >= tally[r][d]
Finish == /\ phase = "predict" /\ coll = "done" /\ (\A w \in W : wpc[w] = "done")
          /\ \E f \in [1..NR -> 1..NC] : (\A r \in 1..NR : Best(r, f[r])) /\ res' = f
          /\ phase' = "over"
          /\ UNCHANGED <<fpc, copy, table, pipe, next, pipeClosed, wpc, wm, votes, votesClosed, coll, tally, asked, ans, bad>>
Next == \/ \E m \in M : Draw(m) \/ Store(m) \/ Train(m)
        \/ FitDone \/ Send \/ ClosePipe \/ CloseVotes \/ Count \/ CollDone \/ Finish
        \/ \E w \in W : Take(w) \/ Ask(w) \/ PutVote(w) \/ Leave(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the user's view
Key(m) == [rows |-> <<m>>, feats |-> <<m>>]
User == INSTANCE Bagging WITH
   phase <- IF phase = "over" THEN "ready" ELSE phase,
   st <- [m \in M |-> IF fpc[m] = "trained" THEN "fitted" ELSE IF fpc[m] = "train" THEN "fitting" ELSE "idle"],
   drawn <- [m \in M |-> IF fpc[m] \in {"train", "trained"} THEN (IF m \in DOMAIN table THEN Key(table[m]) ELSE Key(0)) ELSE [rows |-> <<>>, feats |-> <<>>]],
   ask <- [m \in M |-> IF \E w \in W : wpc[w] = "ask" /\ wm[w] = m THEN "busy" ELSE IF asked[m] > 0 THEN "answered" ELSE "idle"],
   ans <- [m \in M |-> IF asked[m] > 0 THEN [r \in 1..NR |-> ans[m][r]] ELSE <<>>]
UFitReturn == User!FitReturn \/ (phase = "fit" /\ phase' = "predict" /\ \A m \in M : fpc[m] = "trained" /\ m \in DOMAIN table)
Refines == [][\/ \E m \in M : User!FitStart(m, Key(m)) \/ User!FitEnd(m)
              \/ UFitReturn
              \/ \E m \in M : User!AskStart(m, <<m>>) \/ User!AskEnd(m, [r \in 1..NR |-> ans[m][r]])
              \/ User!PredictReturn(res', NR)]_<<User!bvars>>
Sound == ~bad /\ (phase = "over" => \A m \in M : asked[m] = 1)
Ends == <>(phase = "over")
====
