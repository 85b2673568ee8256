---- MODULE Grid ----
(* The in-memory data grid (base.DenseInstances): attributes live in attribute groups, storage is
   allocated by growing the grid, cells hold byte strings of their group's width (or one bit).
   One action per public operation; the operation's call and return are one atomic step because a
   grid is used by one goroutine at a time. Cell values are abstract tokens: "z" is all zero bytes. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES groups,  \* group name -> width in bytes; width 0 packs one bit per cell
          attrs,   \* in order of addition: [k |-> kind, n |-> name, g |-> group name]
          cls,     \* indices of the attributes marked as class
          rows,    \* number of rows
          cells,   \* cells[a][r]
          fixed    \* storage has been allocated

gvars == <<groups, attrs, cls, rows, cells, fixed>>

GridInit == /\ groups = <<>>
            /\ attrs = <<>>
            /\ cls = {}
            /\ rows = 0
            /\ cells = <<>>
            /\ fixed = FALSE

Zeroes(n) == [i \in 1..n |-> "z"]

\* Groups made on demand: one 8-byte group per page of attributes of a kind; the boundary is not part of the design.
Width(k) == IF k = "B" THEN 0 ELSE 8
AddTo(k, n, g, w) ==
  /\ groups' = [x \in DOMAIN groups \cup {g} |-> IF x \in DOMAIN groups THEN groups[x] ELSE w]
  /\ attrs' = Append(attrs, [k |-> k, n |-> n, g |-> g])
  /\ cells' = Append(cells, Zeroes(rows))
  /\ UNCHANGED <<cls, rows, fixed>>

NewGroup(g, w, ok) ==
  IF fixed THEN ~ok /\ UNCHANGED gvars
  ELSE /\ ok
       /\ g \notin DOMAIN groups
       /\ groups' = [x \in DOMAIN groups \cup {g} |-> IF x \in DOMAIN groups THEN groups[x] ELSE w]
       /\ UNCHANGED <<attrs, cls, rows, cells, fixed>>

\* An attribute added without naming a group goes to a group of its kind's width.
AddAttr(k, n, ok) ==
  IF fixed THEN ~ok /\ UNCHANGED gvars
  ELSE ok /\ AddTo(k, n, "default-" \o k, Width(k))

Members(g) == {i \in 1..Len(attrs) : attrs[i].g = g}
\* An attribute may join a named group that exists, while the layout is open, if it has the kind of the attributes in it.
AddAttrTo(k, n, g, ok) ==
  IF fixed \/ g \notin DOMAIN groups \/ \E i \in Members(g) : attrs[i].k # k
  THEN ~ok /\ UNCHANGED gvars
  ELSE ok /\ AddTo(k, n, g, groups[g])

Extend(n) ==
  /\ rows' = rows + n
  /\ cells' = [a \in 1..Len(cells) |-> cells[a] \o Zeroes(n)]
  /\ fixed' = TRUE
  /\ UNCHANGED <<groups, attrs, cls>>

ValidRow(r) == r \in 1..rows
Set(a, r, v, ok) ==
  IF ValidRow(r)
  THEN /\ ok
       /\ cells' = [cells EXCEPT ![a][r] = v]
       /\ UNCHANGED <<groups, attrs, cls, rows, fixed>>
  ELSE ~ok /\ UNCHANGED gvars

Find(k, n) == {i \in 1..Len(attrs) : attrs[i].k = k /\ attrs[i].n = n}
\* Looking an attribute up by an equal one finds it; anything else is an error.
Lookup(k, n, ok) == ok = (Find(k, n) # {}) /\ UNCHANGED gvars

Mark(k, n, ok) ==
  /\ ok = (Find(k, n) # {})
  /\ cls' = cls \cup Find(k, n)
  /\ UNCHANGED <<groups, attrs, rows, cells, fixed>>
Unmark(k, n, ok) ==
  /\ ok = (Find(k, n) # {})
  /\ cls' = cls \ Find(k, n)
  /\ UNCHANGED <<groups, attrs, rows, cells, fixed>>

----
TypeOK == /\ rows \in Nat
          /\ cls \subseteq 1..Len(attrs)
          /\ Len(cells) = Len(attrs)
          /\ \A a \in 1..Len(cells) : Len(cells[a]) = rows
          /\ rows > 0 => fixed
Isolated == [][\A a \in 1..Len(cells) : \A r \in 1..Len(cells[a]) :
                 cells'[a][r] # cells[a][r] =>
                   /\ \A b \in 1..Len(cells) : \A q \in 1..Len(cells[b]) : <<b, q>> # <<a, r>> => cells'[b][q] = cells[b][q]
                   /\ rows' = rows /\ attrs' = attrs]_gvars
GrowthPreserves == [][\A a \in 1..Len(cells) : rows' >= rows /\ Len(cells'[a]) = rows' /\
                       (rows' > rows => \A r \in 1..rows : cells'[a][r] = cells[a][r])]_gvars
LayoutFrozen == [][fixed => attrs' = attrs]_gvars
====
