---- MODULE MCFilter ----
EXTENDS Filter, TLC, Json
CONSTANTS NA, MaxRows, VMax, Kinds, Depth, Gen
VARIABLE hist
Vals == (-VMax)..VMax
vars == <<fvars, hist>>
H(e) == hist' = IF Gen THEN Append(hist, e) ELSE hist
Types == {[kind |-> "f", n |-> 0], [kind |-> "b", n |-> 0]} \cup {[kind |-> "c", n |-> n] : n \in 1..4}
ValsOf(t) == CASE t.kind = "f" -> Vals [] t.kind = "b" -> {0, 1} [] OTHER -> 0..(t.n - 1)
CanChoose(as, k, i) == k # "custom" \/ as[i].kind = "f"
Begin == \E as \in [1..NA -> Types] : \E k \in Kinds : \E ch \in SUBSET {i \in 1..NA : CanChoose(as, k, i)} : \E n \in 0..MaxRows : \E c \in SUBSET (1..NA) :
   LET rows == [r \in 1..n |-> [i \in 1..NA |-> 0]] IN
   Setup(as, rows, [kind |-> k, chosen |-> ch], c)
Init == attrs = <<>> /\ cells = <<>> /\ flt = [kind |-> "none", chosen |-> {}] /\ cls = {} /\ hist = <<>>
DoBegin == attrs = <<>> /\ Begin /\ hist' = hist
DoWrite == \E r \in 1..Len(cells), i \in Is : \E x \in ValsOf(attrs[i]) : Write(r, i, x) /\ H([op |-> "Write", r |-> r, i |-> i, x |-> x])
DoMarkOld == \E i \in Is, on \in BOOLEAN : MarkOld(i, on) /\ H([op |-> "MarkOld", i |-> i, on |-> on])
DoMarkNew == \E o \in Outs, on \in BOOLEAN : MarkNew(o, on) /\ H([op |-> "MarkNew", i |-> o[1], j |-> o[2], on |-> on])
DoUnknown == attrs # <<>> /\ MarkUnknown /\ H([op |-> "Unknown"])
Next == DoBegin \/ (attrs # <<>> /\ (DoWrite \/ DoMarkOld \/ DoMarkNew))
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _, _)
Sum(r, i, j) == IF j = 0 THEN 0 ELSE OutCell(r, <<i, j>>) + Sum(r, i, j - 1)
OneHot == \A r \in 1..Len(cells), i \in Is : Hot(i) => Sum(r, i, attrs[i].n) = 1
Untouched == \A r \in 1..Len(cells), i \in Is \ flt.chosen : OutCell(r, <<i, 1>>) = cells[r][i]
\* labels are recoverable from their images
Injective == \A r, s \in 1..Len(cells), i \in Is : (flt.kind # "custom" /\ attrs[i].kind = "c" /\ cells[r][i] # cells[s][i]) =>
                \E j \in 1..Images(i) : OutCell(r, <<i, j>>) # OutCell(s, <<i, j>>)
ClassInside == cls \subseteq Outs
\* Generator: one random configuration per behaviour
GBegin == /\ attrs = <<>>
          /\ \E n \in 1..NA : \E k \in Kinds : \E t \in {RandomElement([1..n -> Types])} :
             \E ch \in {RandomElement(SUBSET {i \in 1..n : CanChoose(t, k, i)})} : \E c \in {RandomElement(SUBSET (1..n))} : \E m \in 0..MaxRows :
               LET rows == [r \in 1..m |-> [i \in 1..n |-> RandomElement(ValsOf(t[i]))]] IN
               Setup(t, rows, [kind |-> k, chosen |-> ch], c) /\ hist' = <<[op |-> "Begin", attrs |-> t, rows |-> rows, kind |-> k, chosen |-> ch, cls |-> c]>>
GFinish == Len(hist) = Depth /\ hist' = Append(hist, [op |-> "End"]) /\ UNCHANGED fvars
GenNext == GBegin \/ (attrs # <<>> /\ Len(hist) < Depth /\ (DoWrite \/ DoWrite \/ DoMarkOld \/ DoMarkNew \/ DoUnknown)) \/ GFinish
GenSpec == Init /\ [][GenNext]_vars
Emit == (Len(hist) = Depth + 1) => PrintT("SCN " \o ToJson(hist))
====
