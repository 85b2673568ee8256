---- MODULE MCGridText ----
(* Every small data set, printed line by line: what stands on the page at the end is a summary of it, and of no
   data set with other attributes, classes, number of rows or first rows. *)
EXTENDS GridText
CONSTANTS MaxCols, MaxRows, Limit,
          Early     \* TRUE: rows left out are counted before the limit is lowered to the rows there are
VARIABLES g, page, done
vars == <<g, page, done>>
Kinds == {[name |-> "a", type |-> "float", labels |-> <<>>], [name |-> "b", type |-> "cat", labels |-> <<"x", "y">>], [name |-> "b", type |-> "bin", labels |-> <<>>]}
Cells(a) == IF a.type = "cat" THEN {"c0", "c1"} ELSE {"0", "1"}
Text(a, cell) == IF a.type = "cat" THEN [text |-> IF cell = "c0" THEN "x" ELSE "y", num |-> "", isnum |-> FALSE] ELSE [text |-> cell, num |-> cell, isnum |-> TRUE]
Wide == {s \in UNION {[1..n -> Kinds] : n \in 1..MaxCols} : \A i, j \in DOMAIN s : s[i].name = s[j].name => i = j}
RowsOf(as) == {r \in [1..Len(as) -> {"0", "1", "c0", "c1"}] : \A k \in 1..Len(as) : r[k] \in Cells(as[k])}
Grids == UNION {[attrs : {as}, cls : SUBSET {as[k].name : k \in 1..Len(as)}, rows : UNION {[1..n -> RowsOf(as)] : n \in 0..MaxRows}] : as \in Wide}
Blank == [cols |-> 0 - 1, rows |-> 0 - 1, attrs |-> <<>>, shown |-> <<>>, left |-> 0 - 1]
Init == g \in Grids /\ page = Blank /\ done = FALSE
Header == page.cols < 0 /\ page' = [page EXCEPT !.cols = Len(g.attrs), !.rows = Len(g.rows)] /\ UNCHANGED <<g, done>>
Attr == /\ page.cols >= 0 /\ Len(page.attrs) < Len(g.attrs)
        /\ LET a == g.attrs[Len(page.attrs) + 1] IN page' = [page EXCEPT !.attrs = Append(@, [text |-> Described(a), star |-> a.name \in g.cls])]
        /\ UNCHANGED <<g, done>>
Row == /\ page.cols >= 0 /\ Len(page.attrs) = Len(g.attrs) /\ Len(page.shown) < Min2(Limit, Len(g.rows))
       /\ LET r == g.rows[Len(page.shown) + 1] IN page' = [page EXCEPT !.shown = Append(@, [k \in 1..Len(r) |-> Text(g.attrs[k], r[k])])]
       /\ UNCHANGED <<g, done>>
Foot == /\ ~done /\ page.cols >= 0 /\ Len(page.attrs) = Len(g.attrs) /\ Len(page.shown) = Min2(Limit, Len(g.rows))
        /\ page' = [page EXCEPT !.left = IF Early /\ Len(g.rows) > 0 THEN (IF Len(g.rows) > Limit THEN Len(g.rows) - Limit ELSE Limit - Len(g.rows)) ELSE Len(g.rows) - Len(page.shown)]
        /\ done' = TRUE /\ UNCHANGED g
Spec == Init /\ [][Header \/ Attr \/ Row \/ Foot]_vars
Right == done => MaySum(g, page, Limit)
\* two data sets with the same page agree on everything the page is about
Tells == done => \A cl \in SUBSET {"a", "b"} : MaySum([g EXCEPT !.cls = cl], page, Limit) => cl \cap {g.attrs[k].name : k \in 1..Len(g.attrs)} = g.cls
Faithful == done => \A r \in 1..Len(page.shown), k \in 1..Len(g.attrs) : \A c \in Cells(g.attrs[k]) : Shows(g.attrs[k], c, page.shown[r][k]) => c = g.rows[r][k]
====
