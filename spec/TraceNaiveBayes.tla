---- MODULE TraceNaiveBayes ----
EXTENDS NaiveBayes, TraceKit
TraceInit == CaseInit /\ train = <<>>
TFit == IsEvent("Fit") /\ Ev.ok = TRUE /\ train' = Ev.rows
\* features which are not yes or no, or not exactly one class, are refused and change nothing
TRefuse == IsEvent("Refuse") /\ Ev.ok = FALSE /\ UNCHANGED train
Each(rows, ans) == Len(ans) = Len(rows) /\ \A i \in DOMAIN rows : Best(ans[i], rows[i])
TPredict == IsEvent("Predict") /\ (Each(Ev.rows, Ev.answers) = TRUE) /\ UNCHANGED train
TraceNext == TFit \/ TRefuse \/ TPredict
TraceSpec == TraceInit /\ [][TraceNext]_<<train, c, l>>
====
