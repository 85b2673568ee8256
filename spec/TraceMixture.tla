---- MODULE TraceMixture ----
EXTENDS Mixture, TraceKit
VARIABLES ks,    \* components in whole numbers, if known
          costs  \* else: the cost of every row of the batch under every component
tv == <<ks, costs>>
TraceInit == CaseInit /\ ks = <<>> /\ costs = <<>>
TComponents == IsEvent("Components") /\ ks' = Ev.comps /\ costs' = <<>>
\* rows' costs under the fitted components, as measured from the parameters it shows
TFitted == IsEvent("Fitted") /\ Ev.out = "ok" /\ Ev.shown = Ev.requested /\ ks' = <<>> /\ costs' = Ev.costs
TOnly == IsEvent("Only") /\ OnlyComponent(Ev.xs, Ev.mean, Ev.cov) /\ UNCHANGED tv
\* means never leave the box around the rows
TBox == IsEvent("Box") /\ Ev.inside = TRUE /\ UNCHANGED tv
TRefused == IsEvent("Refused") /\ Ev.out = "err" /\ UNCHANGED tv
Costs(x, i) == IF ks # <<>> THEN [j \in 1..Len(ks) |-> Cost(ks[j], x)] ELSE costs[i]
\* rows: which rows of the whole set are in the batch, in order; xs: their values
TPredict == /\ IsEvent("Predict") /\ Complete(Ev.clusters, Len(Ev.rows)) /\ UNCHANGED tv
            /\ \A i \in 1..Len(Ev.rows) : Component(Ev.clusters, i - 1) + 1 \in Best(Costs(Ev.xs[i], Ev.rows[i]))
TGave == IsEvent("Same") /\ (\A i \in 1..Len(Ev.part) : Ev.part[i] = Ev.whole[Ev.rows[i]]) = TRUE /\ UNCHANGED tv
TraceNext == TComponents \/ TFitted \/ TOnly \/ TBox \/ TRefused \/ TPredict \/ TGave
TraceSpec == TraceInit /\ [][TraceNext]_<<tv, c, l>>
====
