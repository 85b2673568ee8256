---- MODULE MCMixture ----
(* One-dimensional mixtures: the components are tried in order and the best so far is kept. *)
EXTENDS Mixture
CONSTANTS K, Rows, Span,
          Fresh  \* FALSE: the best so far is not forgotten between rows
VARIABLES ks, xs, r, k, best, out
vars == <<ks, xs, r, k, best, out>>
Comp == {[kind |-> "diag", mean |-> <<m>>, logv |-> <<h>>, h |-> h] : m \in 0..Span, h \in 0..1}
Init == /\ ks \in [1..K -> Comp] /\ xs \in [1..Rows -> {<<x>> : x \in 0..Span}] /\ r = 1 /\ k = 1 /\ best = 0 /\ out = <<>>
Costs(i) == [j \in 1..K |-> Cost(ks[j], xs[i])]
Try == /\ r <= Rows /\ k <= K /\ k' = k + 1 /\ UNCHANGED <<ks, xs, r, out>>
       /\ best' = IF best = 0 THEN k ELSE IF Costs(r)[k] < Costs(r)[best] THEN k ELSE best
Keep == /\ r <= Rows /\ k > K /\ out' = Append(out, best) /\ r' = r + 1
        /\ IF Fresh THEN k' = 1 /\ best' = 0 ELSE k' = 2 /\ UNCHANGED best
        /\ UNCHANGED <<ks, xs>>
Next == Try \/ Keep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Likely == \A i \in 1..Len(out) : out[i] \in Best(Costs(i))
\* equal rows, equal answers
Alone == \A i, j \in 1..Len(out) : xs[i] = xs[j] => out[i] = out[j]
Ends == <>(Len(out) = Rows)
====
