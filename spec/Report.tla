---- MODULE Report ----
(* Confusion matrices in print: a table of counts with a line for every reference class and a column for every
   class that was predicted, and a summary of the measures of every reference class. *)
EXTENDS Metrics
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Members(s) == {s[i] : i \in 1..Len(s)}
\* t: [cols, lines], a line [k, ns] has one count per column
MayTable(m, t) ==
  /\ Distinct(t.cols) /\ Members(t.cols) \subseteq Classes(m)
  /\ Distinct([i \in 1..Len(t.lines) |-> t.lines[i].k]) /\ {t.lines[i].k : i \in 1..Len(t.lines)} = References(m)
  /\ \A p \in DOMAIN m : m[p] > 0 => p[2] \in Members(t.cols)
  /\ \A i \in 1..Len(t.lines) : Len(t.lines[i].ns) = Len(t.cols) /\ \A j \in 1..Len(t.cols) : t.lines[i].ns[j] = At(m, t.lines[i].k, t.cols[j])
\* the counts a table has
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
Counted2(t) == Sum([i \in 1..Len(t.lines) |-> Sum(t.lines[i].ns, 1)], 1)
\* printed to four decimals
Near4(v, x) == IF x = Undefined THEN v = Undefined ELSE v - x \in -53..53
MayLine(m, o) == /\ o.tp = TP(m, o.k) /\ o.fp = FP(m, o.k) /\ o.tn = TN(m, o.k)
                 /\ Near4(o.precision, Precision(m, o.k)) /\ Near4(o.recall, Recall(m, o.k))
                 /\ TP(m, o.k) > 0 => Near4(o.f1, F1(m, o.k))
MaySummary(m, s) == /\ Distinct([i \in 1..Len(s.lines) |-> s.lines[i].k])
                    /\ References(m) \subseteq {s.lines[i].k : i \in 1..Len(s.lines)} /\ {s.lines[i].k : i \in 1..Len(s.lines)} \subseteq Classes(m)
                    /\ \A i \in 1..Len(s.lines) : MayLine(m, s.lines[i])
                    /\ Near4(s.accuracy, Accuracy(m))
====
