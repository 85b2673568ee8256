---- MODULE TracePrediction ----
EXTENDS Prediction, TraceKit
TraceInit == CaseInit /\ pool = <<>> /\ train = Nothing /\ memo = {}
TPool == IsEvent("Pool") /\ Given(Ev.cells)
\* the training grid still holds the rows and the labels it was given
Kept == Ev.train.rows = Rows(train'.ids) /\ Ev.train.labels = train'.labels
TFit == IsEvent("Fit") /\ Fit(Ev.ids, Ev.labels, Ev.real) /\ (Kept = TRUE)
TPredict == /\ IsEvent("Predict") /\ Predict(Ev.ids, Ev.answers) /\ (Kept = TRUE)
            /\ Ev.query.rows = Rows(Ev.ids) /\ Ev.query.labels = Ev.labels
            /\ Ev.attrs = <<Ev.class>> /\ Ev.cls = <<Ev.class>>
TraceNext == TPool \/ TFit \/ TPredict
TraceSpec == TraceInit /\ [][TraceNext]_<<pvars, c, l>>
====
