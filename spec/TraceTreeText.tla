---- MODULE TraceTreeText ----
EXTENDS TreeText, TraceKit
VARIABLES texts
TraceInit == CaseInit /\ texts = <<>>
\* the model as printed: one tree or several
TPrinted == IsEvent("Printed") /\ texts' = Ev.texts /\ (\A k \in 1..Len(Ev.texts) : Legible(Ev.texts[k])) = TRUE /\ Len(Ev.texts) = Ev.members
TPredict == /\ IsEvent("Predict") /\ UNCHANGED texts /\ Len(Ev.got) = Len(Ev.rows)
            /\ (\A i \in 1..Len(Ev.rows) : IF Len(texts) = 1 THEN MaySay(texts[1], Ev.rows[i], Ev.got[i], Ev.tol)
                                           ELSE MayElect(texts, Ev.rows[i], Ev.got[i])) = TRUE
\* printed again, without having changed, or after having been saved and loaded
TAgain == IsEvent("Again") /\ UNCHANGED texts /\ Ev.texts = texts
TraceNext == TPrinted \/ TPredict \/ TAgain
TraceSpec == TraceInit /\ [][TraceNext]_<<texts, c, l>>
====
