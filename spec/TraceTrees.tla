---- MODULE TraceTrees ----
EXTENDS Trees, TraceKit
VARIABLES D, T
tv == <<D, T>>
TraceInit == CaseInit /\ D = [typ |-> <<>>, rows |-> <<>>, cls |-> <<>>] /\ T = <<>>
TData == IsEvent("Data") /\ D' = [typ |-> Ev.typ, rows |-> Ev.rows, cls |-> Ev.cls] /\ T' = <<>>
\* k: attributes looked at per node; rule: its score, or "" for any
TGrow == /\ IsEvent("Grow") /\ UNCHANGED D /\ T' = Ev.tree
         /\ Grown(D, Ev.tree, 1, All(D), Attrs(D), Ev.k)
         /\ Ev.rule # "" => Chosen(Ev.rule, Ev.k, D, Ev.tree, 1, All(D), Attrs(D))
TRule == /\ IsEvent("Rule") /\ UNCHANGED tv
         /\ MayChoose(Ev.rule, Ev.k, D, All(D), {Ev.offered[j] : j \in 1..Len(Ev.offered)}, Ev.attr, Ev.thr2)
TDraws == /\ IsEvent("Draws") /\ UNCHANGED tv
          /\ Drawn("gain", Ev.k, D, All(D), Attrs(D), {Ev.picked[j] : j \in 1..Len(Ev.picked)})
TPredict == /\ IsEvent("Predict") /\ UNCHANGED tv /\ Len(Ev.got) = Len(Ev.rows)
            /\ (\A i \in 1..Len(Ev.rows) : MayAnswer(D.typ, T, Ev.rows[i], Ev.got[i])) = TRUE
\* class probabilities of one row: the leaf's counts as shares of its rows, most likely first
TProba == /\ IsEvent("Proba") /\ UNCHANGED tv
          /\ \E i \in LeavesOf(D.typ, T, 1, Ev.row) : LET d == T[i].dist n == SumOf(d, DOMAIN d) IN
               /\ \A p \in 1..Len(Ev.probs) : Near(Ev.probs[p].share * n, 1000000 * d[Ev.probs[p].cls], n)
               /\ \A p \in 2..Len(Ev.probs) : Ev.probs[p - 1].share >= Ev.probs[p].share
               /\ \A k \in DOMAIN d : d[k] > 0 => Cardinality({p \in 1..Len(Ev.probs) : Ev.probs[p].cls = k}) = 1
TPrune == /\ IsEvent("Prune") /\ UNCHANGED D /\ T' = Ev.tree
          /\ PrunedFrom(T, 1, Ev.tree, 1)
          /\ Len(Ev.before) = Len(Ev.rows) /\ Len(Ev.after) = Len(Ev.rows)
          /\ (\A i \in 1..Len(Ev.rows) : MayAnswer(D.typ, T, Ev.rows[i], Ev.before[i]) /\ MayAnswer(D.typ, Ev.tree, Ev.rows[i], Ev.after[i])) = TRUE
          /\ Right(Ev.cls, Ev.after) >= Right(Ev.cls, Ev.before)
          /\ LET V == [typ |-> D.typ, rows |-> Ev.rows, cls |-> Ev.cls] IN AllSeen(V, T) => Earned(V, Ev.tree, 1, All(V))
TraceNext == TData \/ TGrow \/ TRule \/ TDraws \/ TPredict \/ TProba \/ TPrune
TraceSpec == TraceInit /\ [][TraceNext]_<<tv, c, l>>
====
