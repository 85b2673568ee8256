---- MODULE TraceMetrics ----
EXTENDS Metrics, TraceKit
TraceInit == CaseInit
TCount == /\ IsEvent("Count") /\ Len(Ev.ref) = Len(Ev.gen)
          /\ Same(Entries(Ev.matrix), Counted(Ev.ref, Ev.gen)) /\ Total(Entries(Ev.matrix)) = Len(Ev.ref)
TMismatch == IsEvent("Mismatch") /\ (Ev.reported <=> Ev.refs # Ev.gens)
Class(m, o) == /\ o.tp = TP(m, o.k) /\ o.fp = FP(m, o.k) /\ o.fn = FN(m, o.k) /\ o.tn = TN(m, o.k)
               /\ Agrees(o.precision, Precision(m, o.k)) /\ Agrees(o.recall, Recall(m, o.k))
               /\ TP(m, o.k) > 0 => Agrees(o.f1, F1(m, o.k))
TMeasure == /\ IsEvent("Measure")
            /\ LET m == Entries(Ev.matrix) IN
               /\ \A i \in 1..Len(Ev.classes) : Class(m, Ev.classes[i])
               /\ Agrees(Ev.accuracy, Accuracy(m)) /\ Agrees(Ev.microp, MicroPrecision(m)) /\ Agrees(Ev.micror, MicroRecall(m))
               /\ Agrees(Ev.macrop, MacroPrecision(m)) /\ Agrees(Ev.macror, MacroRecall(m))
TraceNext == TCount \/ TMismatch \/ TMeasure
TraceSpec == TraceInit /\ [][TraceNext]_<<c, l>>
====
