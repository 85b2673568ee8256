---- MODULE MCCompare ----
(* All pairs of small grids: the relations are symmetric, the strict one implies the loose one, and
   equality survives reordering columns together with their cells. *)
EXTENDS Compare
CONSTANTS MaxAttrs
U == {[type |-> "cat", name |-> "c", labels |-> <<"x">>], [type |-> "cat", name |-> "c", labels |-> <<"x", "y">>],
      [type |-> "float", name |-> "c", labels |-> <<>>], [type |-> "float", name |-> "d", labels |-> <<>>]}
AttrLists == {s \in UNION {[1..n -> U] : n \in 1..MaxAttrs} : \A i, j \in 1..Len(s) : i # j => ~AttrEq(s[i], s[j])}
Grids == UNION {{[attrs |-> as, group |-> gr, rows |-> <<r>>, dense |-> TRUE] : gr \in [1..Len(as) -> {"p", "q"}], r \in [1..Len(as) -> {0, 1}]} : as \in AttrLists}
Init == g \in Grids \X Grids
Next == g' = <<g[2], g[1]>>
Spec == Init /\ [][Next]_g
Symmetric == GridEq(g[1], g[2]) = GridEq(g[2], g[1]) /\ Strict(g[1], g[2]) = Strict(g[2], g[1])
Reflexive == GridEq(g[1], g[1]) /\ Strict(g[1], g[1])
StrictIsLoose == Strict(g[1], g[2]) => SameAttrs(g[1].attrs, g[2].attrs)
SetAlgebra == /\ Len(Common(g[1].attrs, g[2].attrs)) + Len(Missing(g[1].attrs, g[2].attrs)) = Len(g[1].attrs)
              /\ Len(Common(g[1].attrs, g[2].attrs)) = Len(Common(g[2].attrs, g[1].attrs))
              /\ (SameAttrs(g[1].attrs, g[2].attrs) <=> Missing(g[1].attrs, g[2].attrs) = <<>> /\ Missing(g[2].attrs, g[1].attrs) = <<>>)
====
