---- MODULE TraceTable ----
EXTENDS Table, TraceKit
TraceInit == CaseInit /\ tab = <<>> /\ ord = <<>>
SameCols == Ev.cols = TRUE   \* the result has the source's attributes and class attribute
TLoad == IsEvent("Load") /\ tab' = Ev.rows /\ ord' = Ev.ord
TLazySort == IsEvent("LazySort") /\ SortTo(Ev.out, Ev.keys, Ev.asc, FALSE) /\ tab' = Ev.src /\ SameCols
\* The eager sort, and a second lazy one taken before it, give the same keys in the same order.
TSort == /\ IsEvent("Sort") /\ SortTo(Ev.out, Ev.keys, Ev.asc, TRUE) /\ SameCols
         /\ Keys(Ev.out, Ev.keys) = Keys(Ev.lazy, Ev.keys) /\ SameBag(tab, Ev.lazy)
TLazyShuffle == IsEvent("LazyShuffle") /\ ShuffleTo(Ev.out, FALSE) /\ tab' = Ev.src /\ SameCols
TShuffle == IsEvent("Shuffle") /\ ShuffleTo(Ev.out, Ev.inplace) /\ tab' = Ev.src /\ SameCols
TSplit == IsEvent("Split") /\ SplitInto(Ev.train, Ev.test, Ev.src) /\ (~Ev.inplace => Ev.src = tab) /\ SameCols
TSample == IsEvent("Sample") /\ SampleOf(Ev.out, Ev.n) /\ tab = Ev.src /\ SameCols
TraceNext == TLoad \/ TLazySort \/ TSort \/ TLazyShuffle \/ TShuffle \/ TSplit \/ TSample
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, c, l>>
====
