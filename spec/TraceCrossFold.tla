---- MODULE TraceCrossFold ----
EXTENDS CrossFold, TraceKit
TraceInit == CaseInit /\ rows = 0 /\ rounds = 0 /\ cls = <<>> /\ train = {} /\ folds = <<>> /\ mats = <<>>
TStart == IsEvent("Start") /\ rows' = Ev.rows /\ rounds' = Ev.folds /\ cls' = Ev.cls /\ train' = {} /\ folds' = <<>> /\ mats' = <<>>
\* cells tell their place, 100 * row + column
RowOf(cell) == cell \div 100
Placed(fs, cells, k) == \A i \in 1..Len(cells) : /\ Len(cells[i]) = Len(fs) /\ k[i] = cls[RowOf(cells[i][1])]
                           /\ \A j \in 1..Len(fs) : cells[i][j] = 100 * RowOf(cells[i][1]) + fs[j]
Numbers(cells) == [i \in 1..Len(cells) |-> RowOf(cells[i][1])]
TFit == IsEvent("Fit") /\ Placed(Ev.feats, Ev.cells, Ev.cls) /\ RoundFit(Numbers(Ev.cells))
TPredict == IsEvent("Predict") /\ Placed(Ev.feats, Ev.cells, Ev.cls) /\ RoundPredict(Numbers(Ev.cells), Ev.pred)
TReturn == IsEvent("Return") /\ Return([i \in 1..Len(Ev.mats) |-> Entries(Ev.mats[i])])
\* the classifier failed: so does the whole
TFailure == IsEvent("Failure") /\ Ev.reported /\ UNCHANGED cvars
\* mean and variance of the scores of n matrices, times n and n squared
RECURSIVE Plus(_)
Plus(s) == IF s = <<>> THEN 0 ELSE Head(s) + Plus(Tail(s))
TMetric == /\ IsEvent("Metric") /\ UNCHANGED cvars
           /\ LET s == Ev.scores n == Len(s) sum == Plus(s) IN
              Ev.mean = sum /\ Ev.variance = n * Plus([i \in 1..n |-> s[i] * s[i]]) - sum * sum
TraceNext == TStart \/ TFit \/ TPredict \/ TReturn \/ TFailure \/ TMetric
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, c, l>>
====
