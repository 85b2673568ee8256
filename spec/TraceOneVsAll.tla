---- MODULE TraceOneVsAll ----
EXTENDS OneVsAll, TraceKit
VARIABLES feats, rows, trained  \* features of the data; rows asked about; the features' order each member was given
tv == <<ovars, feats, rows, trained>>
TraceInit == CaseInit /\ data = [cells |-> <<>>, cls |-> <<>>, classes |-> 0] /\ got = <<>> /\ scores = <<>> /\ stage = "new" /\ feats = 0 /\ rows = 0 /\ trained = <<>>
\* cells tell their place, 100 * row + column; a grid is shown as its rows' numbers
RowOf(cell) == cell \div 100
Placed(fs, cells) == \A i \in 1..Len(cells) : Len(cells[i]) = Len(fs) /\ \A j \in 1..Len(fs) : cells[i][j] = 100 * RowOf(cells[i][1]) + fs[j]
Whole(fs) == Len(fs) = feats /\ {fs[j] : j \in 1..Len(fs)} = 1..feats
TFitCall == /\ IsEvent("FitCall") /\ FitCall([cells |-> [i \in 1..Ev.rows |-> i], cls |-> [i \in 1..Ev.rows |-> i % Ev.modulus], classes |-> Ev.classes])
            /\ feats' = Ev.feats /\ trained' = [k \in 0..Ev.classes - 1 |-> <<>>] /\ UNCHANGED rows
TFitMember == /\ IsEvent("FitMember") /\ (Whole(Ev.feats) /\ Placed(Ev.feats, Ev.cells)) = TRUE
              /\ FitMember(Ev.m, [i \in 1..Len(Ev.cells) |-> RowOf(Ev.cells[i][1])], Ev.target)
              /\ trained' = [trained EXCEPT ![Ev.m] = Ev.feats] /\ UNCHANGED <<feats, rows>>
TFitReturn == IsEvent("FitReturn") /\ FitReturn /\ UNCHANGED <<feats, rows, trained>>
TPredictCall == IsEvent("PredictCall") /\ PredictCall /\ rows' = Ev.rows /\ UNCHANGED <<feats, trained>>
TAskMember == /\ IsEvent("AskMember") /\ Ev.feats = trained[Ev.m] /\ Placed(Ev.feats, Ev.cells) = TRUE
              /\ [i \in 1..Len(Ev.cells) |-> RowOf(Ev.cells[i][1])] = [i \in 1..rows |-> 59 + i]
              /\ AskMember(Ev.m, Ev.scores) /\ UNCHANGED <<feats, rows, trained>>
TPredictReturn == IsEvent("PredictReturn") /\ PredictReturn(Ev.res) /\ Len(Ev.res) = rows /\ Ev.only = 1 /\ UNCHANGED <<feats, rows, trained>>
\* a member which cannot predict makes the whole fail
TFailure == IsEvent("Failure") /\ stage = "predict" /\ Ev.reported /\ stage' = "ready" /\ UNCHANGED <<data, got, scores, feats, rows, trained>>
TraceNext == TFitCall \/ TFitMember \/ TFitReturn \/ TPredictCall \/ TAskMember \/ TPredictReturn \/ TFailure
TraceSpec == TraceInit /\ [][TraceNext]_<<tv, c, l>>
====
