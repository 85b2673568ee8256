---- MODULE TraceRegression ----
EXTENDS Regression, TraceKit
S == 1000
Fine(b) == \A k \in DOMAIN b : b[k] > -100000000 /\ b[k] < 100000000
TraceInit == CaseInit /\ train = <<>> /\ coef = <<>>
\* asked before it is fitted, or given too few rows or not exactly one class: an error, and nothing changes
TRefuse == IsEvent("Refuse") /\ Ev.out = "err" /\ UNCHANGED rvars
TFew == IsEvent("Fit") /\ ~Enough(Ev.rows) /\ Ev.out = "err" /\ UNCHANGED rvars
TFit == IsEvent("Fit") /\ Enough(Ev.rows) /\ Ev.out = "ok" /\ train' = Ev.rows /\ coef' = <<>>
\* the coefficients show in the answers for the origin and the unit rows: the equations hold
TCoef == /\ IsEvent("Coef") /\ coef' = Ev.coef /\ UNCHANGED train
         /\ (Fine(Ev.coef) /\ Len(Ev.coef) = Len(train[1].x) + 1 /\ Orthogonal(Ev.coef, S, 2)
             /\ \A w \in {Ev.planes[k] : k \in DOMAIN Ev.planes} : On(w) => \A k \in DOMAIN w : Abs(Ev.coef[k] - S * w[k]) <= 1) = TRUE
Near(x, ans) == ans > -1000000000 /\ Abs(ans - At(coef, x)) <= 2 * Size(x) + 1
TPredict == /\ IsEvent("Predict") /\ coef # <<>> /\ UNCHANGED rvars
            /\ (Len(Ev.answers) = Len(Ev.rows) /\ \A k \in DOMAIN Ev.rows : Near(Ev.rows[k], Ev.answers[k])) = TRUE
TraceNext == TRefuse \/ TFew \/ TFit \/ TCoef \/ TPredict
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, c, l>>
====
