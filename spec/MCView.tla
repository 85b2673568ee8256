---- MODULE MCView ----
EXTENDS View, TLC, Json, Randomization, SequencesExt
CONSTANTS Rows, Attrs, MaxGrids, MaxSel, Depth, Gen
VARIABLE hist
vars == <<data, grids, hist>>
H(e) == hist' = IF Gen THEN Append(hist, e) ELSE hist
D0(n) == [r \in 1..n |-> [a \in 1..Attrs |-> "t" \o ToString(r) \o "." \o ToString(a)]]
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Orders(S) == {s \in SeqsUpTo(S, Cardinality(S)) : Cardinality(Range(s)) = Len(s)}

Init == ViewInit(D0(Rows), Attrs, {Attrs}) /\ hist = <<>>
DoVisible == Len(grids) < MaxGrids /\ \E of \in 1..Len(grids), rs \in SeqsUpTo(1..Rows, MaxSel), as \in Orders(1..Attrs) :
   Visible(of, rs, as) /\ H([op |-> "Visible", of |-> of, rows |-> rs, attrs |-> as])
DoFromRows == Len(grids) < MaxGrids /\ \E of \in 1..Len(grids), f \in [1..2 -> 1..Rows] : \E g \in [1..2 -> 1..Rows] :
   f[1] < f[2] /\ FromRows(of, <<<<f[1], g[1]>>, <<f[2], g[2]>>>>) /\ H([op |-> "FromRows", of |-> of, map |-> <<<<f[1], g[1]>>, <<f[2], g[2]>>>>])
DoFromAttrs == Len(grids) < MaxGrids /\ \E of \in 1..Len(grids), as \in Orders(1..Attrs) :
   FromAttrs(of, as) /\ H([op |-> "FromAttrs", of |-> of, attrs |-> as])
DoWrite == \E r \in 1..Rows, a \in 1..Attrs : Write(r, a, "w" \o ToString(Len(hist))) /\ H([op |-> "Write", r |-> r, a |-> a, v |-> "w" \o ToString(Len(hist))])
DoMark == \E g \in 1..Len(grids), a \in 1..Attrs : (\E ok \in BOOLEAN : MarkClass(g, a, ok)) /\ H([op |-> "Mark", g |-> g, a |-> a])
DoUnmark == \E g \in 1..Len(grids), a \in 1..Attrs : UnmarkClass(g, a) /\ H([op |-> "Unmark", g |-> g, a |-> a])
Next == DoVisible \/ DoFromRows \/ DoFromAttrs \/ DoWrite \/ DoMark \/ DoUnmark
Spec == Init /\ [][Next]_vars

\* Generator: random selections instead of all of them.
RandSeq(n, S) == [i \in 1..n |-> RandomElement(S)]
RandOrder(S) == LET P == {s \in [1..Cardinality(S) -> S] : Cardinality(Range(s)) = Len(s)}
                    p == RandomElement(P) IN SubSeq(p, 1, RandomElement(1..Cardinality(S)))
More == Len(hist) < Depth
GVisible == More /\ Len(grids) < MaxGrids /\ \E of \in 1..Len(grids) : NRows(of) > 0 /\ Len(grids[of].at) > 0
   /\ \E n \in 0..MaxSel : LET rs == RandSeq(n, 1..NRows(of)) IN \E as \in {RandOrder(Range(grids[of].at))} :
        Visible(of, rs, as) /\ H([op |-> "Visible", of |-> of, rows |-> rs, attrs |-> as])
GFromRows == More /\ Len(grids) < MaxGrids /\ \E of \in 1..Len(grids) : NRows(of) > 1
   /\ \E k \in 1..NRows(of) : \E f \in {RandSeq(k, 1..NRows(of))} : \E keys \in {RandomSubset(k, 1..NRows(of))} :
        LET ks == SetToSeq(keys)
            m == [i \in 1..k |-> <<ks[i], f[i]>>] IN
        FromRows(of, m) /\ H([op |-> "FromRows", of |-> of, map |-> m])
GFromAttrs == More /\ Len(grids) < MaxGrids /\ \E of \in 1..Len(grids) : Len(grids[of].at) > 0
   /\ \E as \in {RandOrder(Range(grids[of].at))} : FromAttrs(of, as) /\ H([op |-> "FromAttrs", of |-> of, attrs |-> as])
GWrite == More /\ DoWrite
GMark == More /\ DoMark
GUnmark == More /\ DoUnmark
GFinish == Len(hist) = Depth /\ hist' = Append(hist, [op |-> "End"]) /\ UNCHANGED vvars
GenInit == \E n \in 1..Rows, cl \in SUBSET (1..Attrs) : Cardinality(cl) < 3 /\ ViewInit(D0(n), Attrs, cl) /\ hist = <<[op |-> "Base", rows |-> n, attrs |-> Attrs, cls |-> cl]>>
GWriteSafe == More /\ \E r \in 1..Len(data), a \in 1..Attrs : LET v == "w" \o ToString(Len(hist)) IN Write(r, a, v) /\ H([op |-> "Write", r |-> r, a |-> a, v |-> v])
GenNext == GVisible \/ GVisible \/ GFromRows \/ GFromAttrs \/ GWriteSafe \/ GMark \/ GUnmark \/ GFinish
GenSpec == GenInit /\ [][GenNext]_vars
Emit == (Len(hist) = Depth + 1) => PrintT("SCN " \o ToJson(hist))
====
