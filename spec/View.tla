---- MODULE View ----
(* Row/attribute views over one source grid (base.InstancesView). Grid 1 is the source; every other
   grid is a window: a sequence of source rows and a sequence of source attributes. A window holds no
   cells, so a later write to the source shows in all of them. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES data,   \* data[r][a]: the source's cells
          grids   \* grids[i] = [sel |-> source rows, at |-> source attributes, cls |-> class attributes]
vvars == <<data, grids>>

Range(s) == {s[i] : i \in 1..Len(s)}
NRows(g) == Len(grids[g].sel)
Cell(g, r, a) == data[grids[g].sel[r]][a]
Content(i) == [r \in 1..Len(grids[i].sel) |-> [k \in 1..Len(grids[i].at) |-> Cell(i, r, grids[i].at[k])]]

ViewInit(d, nattrs, cls) ==
  /\ data = d
  /\ grids = <<[sel |-> [i \in 1..Len(d) |-> i], at |-> [k \in 1..nattrs |-> k], cls |-> cls]>>

Window(of, sel, at) == grids' = Append(grids, [sel |-> sel, at |-> at, cls |-> grids[of].cls \cap Range(at)]) /\ UNCHANGED data

\* Only the named rows, in the named order, repeats allowed; only the named attributes.
Visible(of, rs, as) == /\ \A i \in 1..Len(rs) : rs[i] \in 1..NRows(of)
                       /\ Range(as) \subseteq Range(grids[of].at)
                       /\ Window(of, [i \in 1..Len(rs) |-> grids[of].sel[rs[i]]], as)
\* Some rows replaced by other rows, the rest where they were. m is a sequence of <<row, replacement>>. A mapping of
\* more rows than there are makes a longer window.
Mapped(m, r) == IF \E i \in 1..Len(m) : m[i][1] = r THEN (m[CHOOSE i \in 1..Len(m) : m[i][1] = r])[2] ELSE r
FromRows(of, m) == LET n == IF Len(m) > NRows(of) THEN Len(m) ELSE NRows(of) IN
                   /\ \A i \in 1..Len(m) : m[i][1] \in 1..n /\ m[i][2] \in 1..NRows(of)
                   /\ n > NRows(of) => {m[i][1] : i \in 1..Len(m)} = 1..n
                   /\ Window(of, [r \in 1..n |-> grids[of].sel[Mapped(m, r)]], grids[of].at)
FromAttrs(of, as) == Range(as) \subseteq Range(grids[of].at) /\ Window(of, grids[of].sel, as)

Write(r, a, v) == /\ r \in 1..Len(data) /\ a \in 1..Len(data[r])
                  /\ data' = [data EXCEPT ![r][a] = v]
                  /\ UNCHANGED grids
\* Class marks belong to the grid they are set on.
MarkClass(g, a, ok) == /\ ok = (a \in Range(grids[g].at))
                       /\ grids' = IF ok THEN [grids EXCEPT ![g].cls = @ \cup {a}] ELSE grids
                       /\ UNCHANGED data
UnmarkClass(g, a) == /\ a \in Range(grids[g].at)
                     /\ grids' = [grids EXCEPT ![g].cls = @ \ {a}]
                     /\ UNCHANGED data
----
WindowsInside == \A i \in 1..Len(grids) : Range(grids[i].sel) \subseteq 1..Len(data) /\ grids[i].cls \subseteq Range(grids[i].at)
\* A write to one source cell changes a window's cell exactly when the window selects it.
WritesShow == [][\A i \in 1..Len(grids) : \A r \in 1..Len(grids[i].sel) : \A k \in 1..Len(grids[i].at) :
                   data'[grids[i].sel[r]][grids[i].at[k]] # Cell(i, r, grids[i].at[k]) =>
                     data'[grids[i].sel[r]] # data[grids[i].sel[r]]]_vvars
ViewsStable == [][\A i \in 1..Len(grids) : grids'[i].sel = grids[i].sel /\ grids'[i].at = grids[i].at]_vvars
====
