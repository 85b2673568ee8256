---- MODULE Network ----
(* A simulated neural network: nodes with functions and biases, joined by weighted links; input nodes pass
   their value on to themselves. Functions are named; values are whole numbers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES size, inputs, fn,
          w,     \* w[s][t]: weight from s to t
          link,  \* the pairs which are linked
          b
nvars == <<size, inputs, fn, w, link, b>>
Fwd(f, v) == CASE f = "linear" -> v
               [] f = "clamp" -> IF v > 6 THEN 6 ELSE IF v < -6 THEN -6 ELSE v
               [] f = "twice" -> 2 * v + 1
               [] f = "mod" -> v % 5
Bwd(f, v) == CASE f = "linear" -> 1
               [] f = "clamp" -> IF v >= 6 \/ v <= -6 THEN 0 ELSE 1
               [] f = "twice" -> 2
               [] f = "mod" -> v - 2
Fn(i) == IF i <= inputs THEN "linear" ELSE fn
RECURSIVE Plus(_, _)
Plus(f, n) == IF n = 0 THEN 0 ELSE f[n] + Plus(f, n - 1)
RECURSIVE Rounds(_, _)
Rounds(x, k) == IF k = 0 THEN x
  ELSE LET y == TLCEval(Rounds(x, k - 1)) IN [t \in 1..size |-> Fwd(Fn(t), b[t] + Plus([s \in 1..size |-> w[s][t] * y[s]], size))]
\* the error of each node: its own, and what comes back along its links, times the slope, pass by pass
Slopes(out) == [i \in 1..size |-> Bwd(Fn(i), out[i])]
RECURSIVE Pass(_, _, _)
Pass(out, err, k) == IF k = 1 THEN [i \in 1..size |-> err[i] * Slopes(out)[i]]
  ELSE LET e == TLCEval(Pass(out, err, k - 1)) IN [s \in 1..size |-> Slopes(out)[s] * Plus([t \in 1..size |-> w[s][t] * e[t]], size)]
RECURSIVE Back(_, _, _)
Back(out, err, k) == IF k = 0 THEN [i \in 1..size |-> 0]
  ELSE LET p == TLCEval(Pass(out, err, k)) q == TLCEval(Back(out, err, k - 1)) IN [i \in 1..size |-> p[i] + q[i]]

Fresh(n, k, f) == /\ size' = n /\ inputs' = k /\ fn' = f /\ b' = [i \in 1..n |-> 0]
                  /\ w' = [s \in 1..n |-> [t \in 1..n |-> IF s = t /\ s <= k THEN 1 ELSE 0]]
                  /\ link' = {<<i, i>> : i \in 1..k}
SetWeight(s, t, v) == /\ w' = [w EXCEPT ![s][t] = v] /\ link' = IF v = 0 THEN link \ {<<s, t>>} ELSE link \cup {<<s, t>>}
                      /\ UNCHANGED <<size, inputs, fn, b>>
\* input nodes have no bias
SetBias(i, v) == b' = (IF i <= inputs THEN b ELSE [b EXCEPT ![i] = v]) /\ UNCHANGED <<size, inputs, fn, w, link>>
\* links of a node to itself are left alone
UpdateWeights(out, err, rate) ==
  /\ w' = [s \in 1..size |-> [t \in 1..size |-> w[s][t] + (IF s # t /\ <<s, t>> \in link THEN rate * out[s] * err[t] ELSE 0)]]
  /\ UNCHANGED <<size, inputs, fn, link, b>>
UpdateBias(err, rate) == b' = [i \in 1..size |-> b[i] + (IF i <= inputs THEN 0 ELSE rate * err[i])] /\ UNCHANGED <<size, inputs, fn, w, link>>
====
