---- MODULE OneVsAll ----
(* One member per class label. Each is trained on every row, its target one on the rows of its class and
   zero elsewhere; the answer for a row is a class whose member scores it highest. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES data,     \* [cells, cls, classes]: the training rows
          got,      \* per class: "none", or the training its member has had
          scores,   \* per class: its member's scores for the rows asked about, or <<>>
          stage     \* "new", "fit", "ready", "predict"
ovars == <<data, got, scores, stage>>
Target(d, k) == [i \in 1..Len(d.cls) |-> IF d.cls[i] = k THEN 1 ELSE 0]
Nothing(d) == [k \in 0..d.classes - 1 |-> "none"]
Silence(d) == [k \in 0..d.classes - 1 |-> <<>>]
FitCall(d) == stage \in {"new", "ready"} /\ stage' = "fit" /\ data' = d /\ got' = Nothing(d) /\ scores' = Silence(d)
FitMember(k, cells, target) ==
  /\ stage = "fit" /\ k \in DOMAIN got /\ got[k] = "none"
  /\ cells = data.cells /\ target = Target(data, k)
  /\ got' = [got EXCEPT ![k] = "trained"] /\ UNCHANGED <<data, scores, stage>>
FitReturn == stage = "fit" /\ (\A k \in DOMAIN got : got[k] = "trained") /\ stage' = "ready" /\ UNCHANGED <<data, got, scores>>
PredictCall == stage = "ready" /\ stage' = "predict" /\ scores' = Silence(data) /\ UNCHANGED <<data, got>>
AskMember(k, s) == stage = "predict" /\ k \in DOMAIN got /\ scores' = [scores EXCEPT ![k] = s] /\ UNCHANGED <<data, got, stage>>
Highest(sc, i, k) == k \in DOMAIN sc /\ \A j \in DOMAIN sc : sc[k][i] >= sc[j][i]
PredictReturn(res) == /\ stage = "predict" /\ \A k \in DOMAIN scores : Len(scores[k]) = Len(res)
                      /\ (\A i \in 1..Len(res) : Highest(scores, i, res[i])) = TRUE
                      /\ stage' = "ready" /\ UNCHANGED <<data, got, scores>>
====
