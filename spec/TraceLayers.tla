---- MODULE TraceLayers ----
EXTENDS Layers, TraceKit
VARIABLES ns, kinds, cls, w, b,
          perm,  \* which input stands for which feature
          outs   \* which output stands for which numeric class
tv == <<ns, kinds, cls, w, b, perm, outs>>
TraceInit == CaseInit /\ ns = <<1, 1>> /\ kinds = <<>> /\ cls = <<>> /\ w = <<>> /\ b = <<>> /\ perm = <<>> /\ outs = <<>>
Range(s) == {s[i] : i \in DOMAIN s}
Perms(n) == {p \in [1..n -> 1..n] : Range(p) = 1..n}
\* outputs: one for a two-valued or numeric class, else one per label
Outputs(cl) == IF Len(cl) = 1 THEN (IF cl[1] > 2 THEN cl[1] ELSE 1) ELSE Len(cl)
\* fitted: the wires are those of the layers
TFit == /\ IsEvent("Fit") /\ kinds' = Ev.kinds /\ cls' = Ev.cls
        /\ ns' = <<Inputs(Ev.kinds)>> \o Ev.hidden \o <<Outputs(Ev.cls)>>
        /\ Ev.size = Size(ns')
        /\ Len(Ev.wires) = Cardinality(Range(Ev.wires)) /\ {<<e[1], e[2]>> : e \in Range(Ev.wires)} = Wires(ns')
        /\ UNCHANGED <<w, b, perm, outs>>
\* fitted on a single row, once through: each input's weight moves in proportion to its value, and the
\* biases of the outputs towards the class
TStep == /\ IsEvent("Step") /\ UNCHANGED <<ns, kinds, cls, w, b>>
         /\ \E p \in Perms(ns[1]) :
              /\ LET x == Expand(kinds, Ev.row) IN
                 (\A i, j \in 1..ns[1] : Ev.dw[p[i]] * x[j] - Ev.dw[p[j]] * x[i] \in -20..20) = TRUE
              /\ perm' = p
         /\ outs' \in (IF cls[1] > 0 THEN {<<1>>} ELSE Perms(Len(cls)))
         /\ (\A k \in 1..Len(Ev.db) : IF Len(Ev.db) = 1 THEN IF Ev.k = 0 THEN Ev.db[1] < 0 ELSE Ev.db[1] > 0 ELSE IF k = Ev.k + 1 THEN Ev.db[k] > 0 ELSE Ev.db[k] < 0) = TRUE
\* features whose weights will be alike, and a single class: no need to tell them apart
TWide == /\ IsEvent("Wide") /\ UNCHANGED <<ns, kinds, cls, w, b>> /\ Len(cls) = 1
         /\ perm' = [i \in 1..ns[1] |-> i] /\ outs' = <<1>>
\* a single step of training: how far weights moved, and how steeply half the squared error falls with each
\* (both in 10^-8), with the learning rate in tenths
TDescent == /\ IsEvent("Descent") /\ UNCHANGED tv /\ Len(Ev.moved) = Len(Ev.down)
            /\ (\A i \in 1..Len(Ev.moved) : 10 * Ev.moved[i] - Ev.rate * Ev.down[i] \in -200..200) = TRUE
\* weights and biases are put in by hand
TSet == IsEvent("Set") /\ w' = Ev.w /\ b' = Ev.b /\ UNCHANGED <<ns, kinds, cls, perm, outs>>
InputOf(row) == LET x == Expand(kinds, row) IN [n \in 1..ns[1] |-> x[CHOOSE f \in 1..ns[1] : perm[f] = n]]
TPredict == /\ IsEvent("Predict") /\ UNCHANGED tv /\ Len(Ev.got) = Len(Ev.rows)
            /\ (\A i \in 1..Len(Ev.rows) : LET z == TLCEval(Scores(ns, w, b, InputOf(Ev.rows[i]))) IN
                  IF Len(cls) = 1 /\ cls[1] > 0 THEN Ev.got[i][1] \in Winners(z)
                  ELSE \A k \in 1..Len(cls) : Ev.got[i][k] - Logistic(z[outs[k]]) \in -2..2) = TRUE
\* the data given are only read
TSame == IsEvent("Same") /\ Ev.was = Ev.now /\ UNCHANGED tv
TraceNext == TFit \/ TStep \/ TWide \/ TDescent \/ TSet \/ TPredict \/ TSame
TraceSpec == TraceInit /\ [][TraceNext]_<<tv, c, l>>
====
