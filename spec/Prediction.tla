---- MODULE Prediction ----
(* What every fitted classifier is to its user: some function from rows to labels, chosen when it is
   fitted, and applied to each row of a batch on its own. The data sets belong to the user. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pool,   \* the rows there are: sequences of cells
          train,  \* the training set: [ids, labels]
          memo    \* what the fitted model has answered so far: a set of <<cells, label>>
pvars == <<pool, train, memo>>
Set(s) == {s[i] : i \in DOMAIN s}
Nothing == [ids |-> <<>>, labels |-> <<>>, real |-> FALSE]
Given(p) == pool' = p /\ UNCHANGED <<train, memo>>
\* fitting again forgets what was learnt before; real: the class is a number, and answers may be any numbers
Fit(ids, labels, real) == train' = [ids |-> ids, labels |-> labels, real |-> real] /\ memo' = {} /\ UNCHANGED pool
Pairs(ids, answers) == {<<pool[ids[i]], answers[i]>> : i \in DOMAIN ids}
Functional(m) == \A p, q \in m : p[1] = q[1] => p[2] = q[2]
Predict(ids, answers) ==
  /\ Len(answers) = Len(ids)
  /\ train.real \/ Set(answers) \subseteq Set(train.labels)
  /\ LET m == memo \cup Pairs(ids, answers) IN Functional(m) /\ memo' = m
  /\ UNCHANGED <<pool, train>>
\* the rows of a grid holding these rows of the pool
Rows(ids) == [i \in DOMAIN ids |-> pool[ids[i]]]
====
