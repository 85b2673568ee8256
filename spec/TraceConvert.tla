---- MODULE TraceConvert ----
EXTENDS Convert, TraceKit
TraceInit == CaseInit /\ frame = NoFrame /\ grid = NoGrid
Names(j) == ToString(j)
\* the grid as the library shows it: attributes, cells read singly and row by row, class attributes
Shows(g, o) ==
  /\ Len(o.cols) = Len(g.cols) /\ o.size = <<Len(g.cols), Len(g.rows)>>
  /\ \A j \in DOMAIN g.cols : o.cols[j].name = g.cols[j].name /\ o.cols[j].kind = g.cols[j].kind
  /\ o.cells = g.rows /\ o.mapped = g.rows
  /\ Len(o.classes) = Cardinality(g.classes) /\ {o.classes[k] : k \in DOMAIN o.classes} = {g.cols[j].name : j \in g.classes}
TFrame == IsEvent("Frame") /\ frame' = [cols |-> Ev.cols, rows |-> Ev.rows] /\ UNCHANGED grid
\* converting leaves the frame as it was
TToGrid == IsEvent("ToGrid") /\ FrameToGrid(Ev.cls) /\ (Shows(grid', Ev.grid) /\ Ev.after = frame.rows) = TRUE
TMatrix == IsEvent("FromMatrix") /\ MatrixToGrid(Ev.m, Ev.n, Names) /\ Shows(grid', Ev.grid) = TRUE
TMark == IsEvent("Mark") /\ Mark(Ev.j, Ev.on) /\ Ev.out = "ok" /\ Shows(grid', Ev.grid) = TRUE
TStranger == IsEvent("Stranger") /\ UNCHANGED cvars /\ Ev.out = "error" /\ Shows(grid, Ev.grid) = TRUE
TShow == IsEvent("Show") /\ UNCHANGED cvars /\ Shows(grid, Ev.grid) = TRUE
\* Ev.at: the rows of the grid that the rows converted stand for, in their order
TRows == /\ IsEvent("Rows") /\ UNCHANGED cvars
         /\ IF Numeric(Ev.sel)
            THEN LET m == Matrix(Ev.sel) want == [k \in DOMAIN Ev.at |-> m[Ev.at[k]]] IN Ev.res = "ok" /\ Ev.all = want /\ Ev.single = want
            ELSE Ev.res = "error"
TraceNext == TFrame \/ TToGrid \/ TMatrix \/ TMark \/ TStranger \/ TShow \/ TRows
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, c, l>>
====
