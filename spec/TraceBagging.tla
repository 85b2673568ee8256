---- MODULE TraceBagging ----
EXTENDS Bagging, TraceKit
VARIABLES w,      \* the data: [feats, rows, classes, want]
          asked   \* rows to predict
tv == <<bvars, w, asked>>
TraceInit == CaseInit /\ phase = "new" /\ st = <<>> /\ drawn = <<>> /\ ask = <<>> /\ ans = <<>> /\ w = <<>> /\ asked = 0
TNew == /\ IsEvent("New") /\ w' = [feats |-> Ev.feats, rows |-> Ev.rows, classes |-> Ev.classes, want |-> Ev.want] /\ asked' = 0
        /\ phase' = "new" /\ st' = [m \in 1..Ev.members |-> "idle"] /\ drawn' = [m \in 1..Ev.members |-> None]
        /\ ask' = [m \in 1..Ev.members |-> "idle"] /\ ans' = [m \in 1..Ev.members |-> <<>>]
Keep == UNCHANGED <<w, asked>>
\* cells tell where they come from: 100 * row + column
RowOf(cell) == cell \div 100
Cells(feats, cells) == \A i \in 1..Len(cells) : /\ Len(cells[i]) = Len(feats)
                          /\ \A j \in 1..Len(feats) : cells[i][j] = 100 * RowOf(cells[i][1]) + feats[j]
Features(feats) == /\ \A i, j \in 1..Len(feats) : feats[i] \in 1..w.feats /\ (feats[i] = feats[j] => i = j)
                   /\ Len(feats) = (IF w.want = 0 THEN w.feats ELSE w.want)
Sample(feats, cells, cls) == /\ Features(feats) /\ Cells(feats, cells)
                             /\ Len(cells) = w.rows /\ Len(cls) = w.rows
                             /\ \A i \in 1..Len(cells) : RowOf(cells[i][1]) \in 1..w.rows /\ cls[i] = RowOf(cells[i][1]) % w.classes
TFitCall == IsEvent("FitCall") /\ FitCall /\ w' = [w EXCEPT !.feats = Ev.feats, !.rows = Ev.rows] /\ UNCHANGED asked
TFitStart == /\ IsEvent("FitStart") /\ Sample(Ev.feats, Ev.cells, Ev.cls) = TRUE /\ Keep
             /\ FitStart(Ev.m, [rows |-> [i \in 1..w.rows |-> RowOf(Ev.cells[i][1])], feats |-> Ev.feats])
TFitEnd == IsEvent("FitEnd") /\ FitEnd(Ev.m) /\ Keep
Range(s) == {s[i] : i \in DOMAIN s}
\* over many members every row and feature is drawn by some, and samples leave rows out
Wide == /\ UNION {Range(drawn[m].rows) : m \in Members} = 1..w.rows
        /\ UNION {Range(drawn[m].feats) : m \in Members} = 1..w.feats
        /\ \E m \in Members : Range(drawn[m].rows) # 1..w.rows
TFitReturn == IsEvent("FitReturn") /\ FitReturn /\ Keep /\ ((Ev.wide => Wide) = TRUE)
TPredictCall == IsEvent("PredictCall") /\ PredictCall /\ asked' = Ev.rows /\ UNCHANGED w
TAskStart == /\ IsEvent("AskStart") /\ AskStart(Ev.m, Ev.feats) /\ Keep
             /\ Cells(Ev.feats, Ev.cells) = TRUE /\ [i \in 1..Len(Ev.cells) |-> RowOf(Ev.cells[i][1])] = [i \in 1..asked |-> 59 + i]
TAskEnd == IsEvent("AskEnd") /\ AskEnd(Ev.m, Ev.ans) /\ Keep
TAskFail == IsEvent("AskFail") /\ AskFail(Ev.m) /\ Keep
TPredictReturn == IsEvent("PredictReturn") /\ PredictReturn(Ev.res, Ev.rows) /\ Ev.only = 1 /\ Keep
TPredictError == IsEvent("PredictError") /\ PredictError /\ Keep
TraceNext == TNew \/ TFitCall \/ TFitStart \/ TFitEnd \/ TFitReturn \/ TPredictCall \/ TAskStart \/ TAskEnd \/ TAskFail \/ TPredictReturn \/ TPredictError
TraceSpec == TraceInit /\ [][TraceNext]_<<tv, c, l>>
====
