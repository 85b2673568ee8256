---- MODULE TraceEncode ----
EXTENDS Encode, TraceKit
TraceInit == CaseInit /\ dict = <<<<>>>>
\* what the real attributes list and how they compare, after the step
Shown == /\ Ev.dicts = dict'
         /\ Len(Ev.eq) = Len(dict')
         /\ \A i, j \in 1..Len(dict') : Ev.eq[i][j] = (dict'[i] = dict'[j])
TEnc == IsEvent("Enc") /\ Enc(Ev.h, Ev.x, Ev.code) /\ Shown
TLook == IsEvent("Look") /\ Look(Ev.h, Ev.x, Ev.code) /\ Shown
TDec == IsEvent("Dec") /\ Dec(Ev.h, Ev.code, Ev.x) /\ Shown
TRestore == IsEvent("Restore") /\ Ev.ok = TRUE /\ Restore(Ev.h) /\ Shown
TFresh == IsEvent("Fresh") /\ Fresh /\ Shown
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
\* A number given with more digits than the precision shows as a nearest printable one, and
\* reading what was shown and showing it again changes nothing.
TNum == /\ IsEvent("Num") /\ UNCHANGED dict
        /\ Ev.digits = Ev.prec
        /\ 2 * Abs(Ev.shown * Pow10(Ev.more) - Ev.n) <= Pow10(Ev.more)
        /\ Ev.again = Ev.text /\ Ev.restored = Ev.text /\ Ev.equal = TRUE
        /\ (Ev.more = 0 => Ev.bits = Ev.bitsAgain)
TBit == IsEvent("Bit") /\ UNCHANGED dict /\ Ev.back = Ev.bit /\ Ev.shown = ToString(Ev.bit) /\ Ev.equal = TRUE
TraceNext == TEnc \/ TLook \/ TDec \/ TRestore \/ TFresh \/ TNum \/ TBit
TraceSpec == TraceInit /\ [][TraceNext]_<<dict, c, l>>
====
