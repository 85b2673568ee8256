---- MODULE MCNetwork ----
EXTENDS Network, Json, Randomization
CONSTANTS Size, Inputs, Fns, W, Depth, Gen,
          Links  \* FALSE: an update reaches pairs without a link too
VARIABLES hist
vars == <<nvars, hist>>
Zero == [s \in 1..Size |-> [t \in 1..Size |-> 0]]
\* ---- design: every acyclic network of linear nodes ----
Upper == {m \in [1..Size -> [1..Size -> W]] : \A s, t \in 1..Size : t <= s \/ t <= Inputs => m[s][t] = 0}
Init == /\ size = Size /\ inputs = Inputs /\ fn \in Fns /\ hist = <<>>
        /\ \E m \in Upper : w = [s \in 1..Size |-> [t \in 1..Size |-> IF s = t /\ s <= Inputs THEN 1 ELSE m[s][t]]]
        /\ link = {<<s, t>> \in (1..Size) \X (1..Size) : w[s][t] # 0} /\ b \in {[i \in 1..Size |-> IF i <= Inputs THEN 0 ELSE v] : v \in W}
Vecs == [1..Size -> {0, 1, 2}]
Train == /\ hist = <<>> /\ hist' = <<1>>
         /\ \E out, err \in {[i \in 1..Size |-> v] : v \in {1, 2}} :
              IF Links THEN UpdateWeights(out, err, 1)
              ELSE /\ w' = [s \in 1..Size |-> [t \in 1..Size |-> w[s][t] + (IF s # t THEN out[s] * err[t] ELSE 0)]] /\ UNCHANGED <<size, inputs, fn, link, b>>
Spec == Init /\ [][Train]_vars
Start(x) == [i \in 1..Size |-> IF i <= Inputs THEN x ELSE 0]
\* after as many rounds as there are nodes nothing moves any more
Settles == \A x \in W : Rounds(Start(x), Size) = Rounds(Start(x), Size + 1)
\* only what is linked has weight
Linked == \A s, t \in 1..Size : w[s][t] # 0 => <<s, t>> \in link
\* with linear nodes, the error passed back to a node is the change of the outcome per change of its bias
Unit(i) == [k \in 1..Size |-> IF k = i THEN 1 ELSE 0]
With(i) == LET bb == [b EXCEPT ![i] = @ + 1]
               F[k \in 0..Size] == IF k = 0 THEN Start(1) ELSE [t \in 1..Size |-> Fwd(Fn(t), bb[t] + Plus([s \in 1..Size |-> w[s][t] * F[k - 1][s]], Size))] IN F[Size]
Gradient == fn = "linear" => \A i \in Inputs + 1..Size, j \in Inputs + 1..Size :
               With(i)[j] - Rounds(Start(1), Size)[j] = Back(Rounds(Start(1), Size), Unit(j), Size)[i]
\* ---- generator of histories for the real network ----
One(S) == RandomSubset(1, S)
Some(lo, hi) == [i \in 1..size |-> RandomElement(lo..hi)]
Rec(e) == hist' = Append(hist, e)
GInit == /\ size = 0 /\ inputs = 0 /\ fn = "linear" /\ w = <<>> /\ link = {} /\ b = <<>> /\ hist = <<>>
GNew == hist = <<>> /\ \E n \in One(1..5), f \in One(Fns) : \E k \in One(0..n) : Fresh(n, k, f) /\ Rec([op |-> "New", n |-> n, k |-> k, f |-> f])
GSetW == \E s \in One(1..size), t \in One(1..size), v \in One(-2..2) : SetWeight(s, t, v) /\ Rec([op |-> "SetWeight", s |-> s, t |-> t, v |-> v])
GSetB == \E i \in One(1..size), v \in One(-3..3) : SetBias(i, v) /\ Rec([op |-> "SetBias", i |-> i, v |-> v])
GAct == \E k \in One(0..3) : UNCHANGED nvars /\ Rec([op |-> "Activate", x |-> Some(-2, 3), k |-> k])
GErr == \E k \in One(0..4) : UNCHANGED nvars /\ Rec([op |-> "Error", out |-> Some(-3, 7), err |-> Some(-2, 2), k |-> k])
Small == \A s, t \in 1..size : w[s][t] \in -6..6
GUpW == Small /\ \E r \in One(-1..2) : LET o == TLCEval(Some(-1, 2)) e == TLCEval(Some(-1, 1)) IN UpdateWeights(o, e, r) /\ Rec([op |-> "UpdateWeights", out |-> o, err |-> e, rate |-> r])
GUpB == \E r \in One(-1..2) : LET e == TLCEval(Some(-2, 2)) IN UpdateBias(e, r) /\ Rec([op |-> "UpdateBias", err |-> e, rate |-> r])
GFinish == Len(hist) = Depth /\ Rec([op |-> "End"]) /\ UNCHANGED nvars
GenNext == GNew \/ (hist # <<>> /\ Len(hist) < Depth /\ (GSetW \/ GSetW \/ GSetB \/ GAct \/ GErr \/ GUpW \/ GUpB)) \/ GFinish
GenSpec == GInit /\ [][GenNext]_vars
Emit == (Len(hist) = Depth + 1) => PrintT("SCN " \o ToJson(hist))
====
