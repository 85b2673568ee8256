---- MODULE TraceNetwork ----
EXTENDS Network, TraceKit
TraceInit == CaseInit /\ size = 0 /\ inputs = 0 /\ fn = "linear" /\ w = <<>> /\ link = {} /\ b = <<>>
\* the weights and biases which the real network shows after the step
Shown == Ev.w = w' /\ Ev.b = b'
TNew == IsEvent("New") /\ Fresh(Ev.n, Ev.k, Ev.f) /\ Shown
TSetW == IsEvent("SetWeight") /\ SetWeight(Ev.s, Ev.t, Ev.v) /\ Shown
TSetB == IsEvent("SetBias") /\ SetBias(Ev.i, Ev.v) /\ Shown
TUpW == IsEvent("UpdateWeights") /\ UpdateWeights(Ev.out, Ev.err, Ev.rate) /\ Shown
TUpB == IsEvent("UpdateBias") /\ UpdateBias(Ev.err, Ev.rate) /\ Shown
TAct == IsEvent("Activate") /\ Ev.got = Rounds(Ev.x, Ev.k) /\ UNCHANGED nvars /\ Shown
\* the vectors given are only read
TErr == IsEvent("Error") /\ Ev.got = Back(Ev.out, Ev.err, Ev.k) /\ Ev.outAfter = Ev.out /\ Ev.errAfter = Ev.err /\ UNCHANGED nvars /\ Shown
\* the supplied functions at x, in millionths: sigmoid s(x), s(-x), softplus p(x), p(-x), and slopes,
\* measured (d..) and told (t..)
Close(x, y) == x - y \in -6..6
TCurve == /\ IsEvent("Curve") /\ UNCHANGED nvars
          /\ Close(Ev.s + Ev.sneg, 1000000) /\ Close(Ev.p - Ev.pneg, Ev.x) /\ (Ev.x = 0 => Close(Ev.s, 500000) /\ Close(Ev.p, 693147))
          /\ Close(Ev.dp, Ev.s) /\ Ev.s \in 0..1000000 /\ Ev.p >= 0
          /\ LET q == (Ev.s \div 100) IN Ev.ds - (q * (10000 - q)) \div 100 \in -120..120
          /\ Close(Ev.ts, Ev.ds) /\ Close(Ev.tp, Ev.dp) /\ Ev.line = Ev.x /\ Ev.tline = 1000000
TraceNext == TNew \/ TSetW \/ TSetB \/ TUpW \/ TUpB \/ TAct \/ TErr \/ TCurve
TraceSpec == TraceInit /\ [][TraceNext]_<<nvars, c, l>>
====
