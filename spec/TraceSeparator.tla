---- MODULE TraceSeparator ----
EXTENDS Separator, TraceKit
VARIABLE told   \* answers so far: <<row, label>>
tvars == <<model, told>>
None == [kind |-> "none"]
TraceInit == CaseInit /\ model = None /\ told = {}
TRefuse == IsEvent("Refuse") /\ Ev.out = "err" /\ UNCHANGED tvars
TFit == /\ IsEvent("Fit") /\ Ev.out = "ok" /\ told' = {}
        /\ model' = [kind |-> Ev.kind, many |-> Ev.many, plain |-> Ev.plain, dual |-> Ev.dual, c |-> Ev.c, cw |-> Ev.cw, rows |-> Ev.rows, labels |-> Ev.labels, classes |-> Ev.classes]
D == Len(model.rows[1])
U == TLCEval([1..D -> {0 - 2, 0 - 1, 0, 1, 2}])
Holds == IF model.many THEN AllSeparable(U) ELSE Separable(U, 1)
\* class k's side of the row x: its rows, and the rest, by weight. Weights are <<num, den>>; 27720 is a multiple of every den
Own(x, k) == CountOf(x, k) * model.cw[k + 1][1] * (27720 \div model.cw[k + 1][2])
RestWeight(k) == IF model.plain THEN 27720 ELSE Plus([j \in 1..model.classes |-> IF j = k + 1 THEN 0 ELSE model.cw[j][1] * (27720 \div model.cw[j][2])])
Others(x, k) == Cardinality({i \in DOMAIN model.rows : model.rows[i] = x /\ model.labels[i] # k})
\* heavier by enough for the weights to be worth their price; 2: undecided
Lead(x, k) == IF ~model.many THEN Own(x, k) - Own(x, 1 - k) ELSE Own(x, k) - Others(x, k) * RestWeight(k)
Side(x, k) == IF Lead(x, k) * model.c >= 4 * 27720 THEN 1 ELSE IF Lead(x, k) * model.c <= 0 - 4 * 27720 THEN 0 ELSE 2
Winner(x) == IF \E k \in 0..model.classes - 1 : Side(x, k) = 2 THEN {} ELSE {k \in 0..model.classes - 1 : Side(x, k) = 1}
\* (the dual solver may stop early when rows contradict one another, so that the heavier side is not promised)
\* answers of a batch: training rows keep their labels; rows of one feature go to the heavier side; the same row, the same answer
Known(rows, ans) ==
  LET sep == TLCEval(Holds) hot == TLCEval(AllOneHot) IN
  \A i \in DOMAIN rows :
    /\ ans[i] \in 0..model.classes - 1
    /\ sep => \A j \in DOMAIN model.rows : model.rows[j] = rows[i] => ans[i] = model.labels[j]
    /\ (hot /\ ~model.dual /\ OneHot(rows[i])) => LET k == Winner(rows[i]) IN Cardinality(k) = 1 => ans[i] \in k
Functional(m) == \A p, q \in m : p[1] = q[1] => p[2] = q[2]
TPredict == /\ IsEvent("Predict") /\ UNCHANGED model
            /\ Len(Ev.answers) = Len(Ev.rows)
            /\ told' = told \cup {<<Ev.rows[i], Ev.answers[i]>> : i \in DOMAIN Ev.rows}
            /\ (Known(Ev.rows, Ev.answers) /\ Functional(told')) = TRUE
\* two classes: on either side of a plane through the origin. Rows whose neighbours all have the same answer are clear of the plane
Add(x, y) == [k \in DOMAIN x |-> x[k] + y[k]]
Neg(x) == [k \in DOMAIN x |-> 0 - x[k]]
Plane(S) == \A p, q \in S : /\ p[1] = Neg(q[1]) => p[2] # q[2]
                            /\ p[2] = q[2] => \A r \in S : r[1] = Add(p[1], q[1]) => r[2] = p[2]
\* weights of nothing at all put everything on one side
Both(ans) == \E i, j \in DOMAIN ans : ans[i] # ans[j]
TPlane == /\ IsEvent("Plane") /\ UNCHANGED tvars
          /\ (Both(Ev.answers) => Plane({<<Ev.rows[i], Ev.answers[i]>> : i \in {j \in DOMAIN Ev.rows : Ev.clear[j]}})) = TRUE
TraceNext == TRefuse \/ TFit \/ TPredict \/ TPlane
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, c, l>>
====
