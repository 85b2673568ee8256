---- MODULE CrossFold ----
(* Cross-validation of n rows in k rounds: fit on some rows, predict the others, keep their matrix. *)
EXTENDS Metrics
VARIABLES rows, rounds,  \* number of rows and rounds
          cls,           \* the rows' classes
          train,         \* the rows of this round's training, as {sequence}, or {}
          folds,         \* the rows tested in each round so far
          mats           \* the matrix of each round so far
cvars == <<rows, rounds, cls, train, folds, mats>>
Range(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(Range(s)) = Len(s)
RoundFit(tr) == /\ train = {} /\ Len(folds) < rounds /\ Distinct(tr) /\ Range(tr) \subseteq 1..rows
                /\ train' = {tr} /\ UNCHANGED <<rows, rounds, cls, folds, mats>>
RoundPredict(te, pred) ==
   /\ train # {} /\ Distinct(te) /\ Range(te) = (1..rows) \ UNION {Range(t) : t \in train}
   /\ \A i \in 1..Len(folds) : folds[i] \cap Range(te) = {}
   /\ folds' = Append(folds, Range(te)) /\ mats' = Append(mats, Counted([i \in 1..Len(te) |-> cls[te[i]]], pred))
   /\ train' = {} /\ UNCHANGED <<rows, rounds, cls>>
Return(ms) == /\ Len(folds) = rounds /\ UNION Range(folds) = 1..rows
              /\ Len(ms) = rounds /\ \A i \in 1..rounds : Same(ms[i], mats[i])
              /\ UNCHANGED cvars
====
