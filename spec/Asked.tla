---- MODULE Asked ----
(* Fitted models used by several goroutines. A model answers questions from what it was fitted to and
   from nothing else: asking it, writing it to a file, or fitting another model at the same time
   makes no difference. Only fitting a model needs that model to itself. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES fitted  \* model -> the data it was fitted to; 0 before that
Work(op, m, x) == [op |-> op, m |-> m, x |-> x]

\* Pieces of work that may go on at the same time.
Apart(a, b) == a.m = b.m => a.op # "Fit" /\ b.op # "Fit"
Together(w) == \A i \in 1..Len(w), j \in 1..Len(w) : i # j => Apart(w[i], w[j])
Possible(w) == \A i \in 1..Len(w) : w[i].op # "Fit" => fitted[w[i].m] # 0

\* What each model is fitted to once they are all done.
AfterRound(w) == [m \in DOMAIN fitted |->
  IF \E i \in 1..Len(w) : w[i].op = "Fit" /\ w[i].m = m
  THEN (CHOOSE x \in {w[i].x : i \in {j \in 1..Len(w) : w[j].op = "Fit" /\ w[j].m = m}} : TRUE)
  ELSE fitted[m]]

AskedInit(ms) == fitted = [m \in ms |-> 0]
Round(w) == /\ Together(w) = TRUE
            /\ Possible(w) = TRUE
            /\ fitted' = AfterRound(w)
====
