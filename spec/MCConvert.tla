---- MODULE MCConvert ----
(* Conversions carried out cell by cell over every small frame, against Convert. And the generator of histories. *)
EXTENDS Convert, TLC, Json, Randomization
CONSTANTS Cols, Rows, V,
          Exact,   \* FALSE: values lose their last digit on the way
          Depth
VARIABLES todo,    \* cells still to be written
          taken,   \* what the frame held when its conversion began
          mats,    \* matrices handed out: [of, sel, m]
          hist
vars == <<cvars, todo, taken, mats, hist>>
Col(j) == [name |-> j, kind |-> IF j % 2 = 0 THEN "str" ELSE "num"]
Frames == UNION {UNION {{[cols |-> [j \in 1..n |-> Col(j)], rows |-> r] : r \in [1..k -> [1..n -> V]]} : k \in 0..Rows} : n \in 1..Cols}
Init == frame \in Frames /\ grid = NoGrid /\ todo = {} /\ taken = NoFrame /\ mats = {} /\ hist = <<>>
Begin == /\ todo = {} /\ grid = NoGrid /\ \E cls \in DOMAIN frame.cols :
              grid' = [cols |-> frame.cols, rows |-> [i \in DOMAIN frame.rows |-> [j \in DOMAIN frame.cols |-> 0]], classes |-> {cls}]
         /\ todo' = {<<i, j>> : i \in DOMAIN frame.rows, j \in DOMAIN frame.cols} /\ taken' = frame
         /\ UNCHANGED <<frame, mats, hist>>
Write == /\ todo # {} /\ \E x \in todo :
              LET v == frame.rows[x[1]][x[2]] IN
              /\ grid' = [grid EXCEPT !.rows[x[1]][x[2]] = IF Exact THEN v ELSE (v \div 2) * 2]
              /\ todo' = todo \ {x}
         /\ UNCHANGED <<frame, taken, mats, hist>>
Later == /\ todo = {} /\ grid # NoGrid /\ Len(hist) < 1 /\ hist' = Append(hist, "w") /\ UNCHANGED <<todo, taken, mats>>
         /\ \E i \in DOMAIN frame.rows, j \in DOMAIN frame.cols, v \in V : FrameSet(i, j, v)
Sels == UNION {[1..n -> DOMAIN grid.cols] : n \in 1..2}
Take == /\ todo = {} /\ grid # NoGrid /\ mats = {} /\ \E s \in Sels : Numeric(s) /\ mats' = {[of |-> taken, sel |-> s, m |-> Matrix(s)]}
        /\ UNCHANGED <<cvars, todo, taken, hist>>
Id(j) == j
Back == /\ mats # {} /\ \E x \in mats : MatrixToGrid(x.m, Len(x.sel), Id) /\ UNCHANGED <<todo, taken, mats, hist>>
Spec == Init /\ [][Begin \/ Write \/ Later \/ Take \/ Back]_vars
\* a finished grid holds what the frame held, whatever became of the frame since
Kept == (todo = {} /\ grid # NoGrid /\ mats = {}) => grid.rows = taken.rows /\ grid.cols = taken.cols
\* through a matrix and back
Round == \A x \in mats : \A i \in DOMAIN x.m, k \in DOMAIN x.sel : x.m[i][k] = x.of.rows[i][x.sel[k]]
\* ---- generator: value 0 is a missing one ----
One(S) == RandomSubset(1, S)
Rec(e) == hist' = Append(hist, e) /\ UNCHANGED <<todo, taken, mats>>
GInit == frame = NoFrame /\ grid = NoGrid /\ todo = {} /\ taken = NoFrame /\ mats = {} /\ hist = <<>>
Vals(n) == [i \in 1..n |-> RandomElement(0..30)]
GSeries == \E kind \in One({"float", "float", "int", "str", "mixed"}), vals \in One({Vals(Len(frame.rows))}) :
             /\ Len(frame.cols) < 4
             /\ FrameSeries([name |-> Len(frame.cols) + 1, kind |-> kind], vals)
             /\ Rec([op |-> "Series", kind |-> kind, vals |-> vals])
GRow == \E r \in One({Vals(Len(frame.cols))}) : frame.cols # <<>> /\ FrameRow(r) /\ Rec([op |-> "Row", vals |-> r])
GSet == frame.cols # <<>> /\ frame.rows # <<>> /\ \E i \in One(DOMAIN frame.rows), j \in One(DOMAIN frame.cols), v \in One(0..30) :
             FrameSet(i, j, v) /\ Rec([op |-> "Set", i |-> i, j |-> j, v |-> v])
GGrid == frame.cols # <<>> /\ \E j \in One(DOMAIN frame.cols) : FrameToGrid(j) /\ Rec([op |-> "Grid", j |-> j])
GMatrix == \E n \in One(1..5), k \in One(1..6) : \E m \in One({[i \in 1..k |-> Vals(n)]}) :
             MatrixToGrid(m, n, Id) /\ Rec([op |-> "Matrix", m |-> m, n |-> n])
GMark == grid.cols # <<>> /\ \E j \in One(DOMAIN grid.cols), on \in One(BOOLEAN) : Mark(j, on) /\ Rec([op |-> "Mark", j |-> j, on |-> on])
Sel == [k \in 1..RandomElement(1..4) |-> RandomElement(DOMAIN grid.cols)]
GRows == grid.cols # <<>> /\ UNCHANGED cvars /\ \E s \in One({Sel}), f \in One({"plain", "view"}) : Rec([op |-> "Rows", sel |-> s, form |-> f])
GenNext == \/ Len(hist) < 5 /\ (GSeries \/ GRow)
           \/ Len(hist) >= 5 /\ Len(hist) < Depth /\ (GSeries \/ GRow \/ GSet \/ GGrid \/ GMatrix \/ GMark \/ GRows \/ GRows)
           \/ Len(hist) = Depth /\ UNCHANGED cvars /\ Rec([op |-> "End"])
GenSpec == GInit /\ [][GenNext]_vars
Emit == (Len(hist) = Depth + 1) => PrintT("SCN " \o ToJson(hist))
====
