---- MODULE Convert ----
(* Data frames and matrices are turned into grids, and grids into matrices. The caller goes on changing the
   frame; grids keep what they were given. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES frame,  \* [cols, rows]: the caller's frame, cols[j] = [name, kind]
          grid    \* [cols, rows, classes]: what it was last turned into; classes is a set of columns
cvars == <<frame, grid>>
NoFrame == [cols |-> <<>>, rows |-> <<>>]
NoGrid == [cols |-> <<>>, rows |-> <<>>, classes |-> {}]
FrameRow(r) == /\ Len(r) = Len(frame.cols) /\ frame' = [frame EXCEPT !.rows = Append(@, r)] /\ UNCHANGED grid
FrameSeries(col, vals) ==
  /\ Len(vals) = Len(frame.rows) /\ \A j \in DOMAIN frame.cols : frame.cols[j].name # col.name
  /\ frame' = [cols |-> Append(frame.cols, col), rows |-> [i \in DOMAIN frame.rows |-> Append(frame.rows[i], vals[i])]]
  /\ UNCHANGED grid
FrameSet(i, j, v) == i \in DOMAIN frame.rows /\ j \in DOMAIN frame.cols /\ frame' = [frame EXCEPT !.rows[i][j] = v] /\ UNCHANGED grid
FrameToGrid(cls) == /\ cls \in DOMAIN frame.cols
                    /\ grid' = [cols |-> frame.cols, rows |-> frame.rows, classes |-> {cls}] /\ UNCHANGED frame
\* the columns of a matrix have no names, so they're numbered from 0
MatrixToGrid(m, n, name(_)) ==
  /\ grid' = [cols |-> [j \in 1..n |-> [name |-> name(j - 1), kind |-> "num"]], rows |-> m, classes |-> {}] /\ UNCHANGED frame
Mark(j, on) == j \in DOMAIN grid.cols /\ grid' = [grid EXCEPT !.classes = IF on THEN @ \union {j} ELSE @ \ {j}] /\ UNCHANGED frame
\* the matrix of the columns listed in sel, in that order; there is none when one of them isn't numeric
Numeric(sel) == \A k \in DOMAIN sel : grid.cols[sel[k]].kind = "num"
Matrix(sel) == [i \in DOMAIN grid.rows |-> [k \in DOMAIN sel |-> grid.rows[i][sel[k]]]]
====
