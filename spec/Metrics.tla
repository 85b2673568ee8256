---- MODULE Metrics ----
(* Confusion matrices and the measures derived from them. A matrix is a function from pairs
   <<reference, prediction>> to counts; absent pairs count zero. Measures in millionths. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE SumIn(_, _)
SumIn(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumIn(f, S \ {x})
Classes(m) == {p[1] : p \in DOMAIN m} \cup {p[2] : p \in DOMAIN m}
References(m) == {p[1] : p \in {q \in DOMAIN m : m[q] > 0}}
At(m, r, p) == IF <<r, p>> \in DOMAIN m THEN m[<<r, p>>] ELSE 0
Total(m) == SumIn(m, DOMAIN m)
TP(m, k) == At(m, k, k)
FP(m, k) == SumIn(m, {p \in DOMAIN m : p[2] = k /\ p[1] # k})
FN(m, k) == SumIn(m, {p \in DOMAIN m : p[1] = k /\ p[2] # k})
TN(m, k) == SumIn(m, {p \in DOMAIN m : p[1] # k /\ p[2] # k})
Hits(m) == SumIn(m, {p \in DOMAIN m : p[1] = p[2]})
Undefined == -1
\* millionths of num over den, digit by digit, so that no product gets large
RECURSIVE Digits(_, _, _)
Digits(num, den, unit) == IF unit = 0 THEN 0 ELSE unit * ((10 * num) \div den) + Digits((10 * num) % den, den, unit \div 10)
Share(num, den) == IF den = 0 THEN Undefined ELSE 1000000 * (num \div den) + Digits(num % den, den, 100000)
Precision(m, k) == Share(TP(m, k), TP(m, k) + FP(m, k))
Recall(m, k) == Share(TP(m, k), TP(m, k) + FN(m, k))
\* the harmonic mean of both, where they are
F1(m, k) == Share(2 * TP(m, k), 2 * TP(m, k) + FP(m, k) + FN(m, k))
Accuracy(m) == Share(Hits(m), Total(m))
MicroPrecision(m) == Share(SumIn([k \in Classes(m) |-> TP(m, k)], Classes(m)), SumIn([k \in Classes(m) |-> TP(m, k) + FP(m, k)], Classes(m)))
MicroRecall(m) == Share(SumIn([k \in Classes(m) |-> TP(m, k)], Classes(m)), SumIn([k \in Classes(m) |-> TP(m, k) + FN(m, k)], Classes(m)))
Mean(f, S) == IF S = {} \/ \E x \in S : f[x] = Undefined THEN Undefined ELSE SumIn(f, S) \div Cardinality(S)
MacroPrecision(m) == Mean([k \in References(m) |-> Precision(m, k)], References(m))
MacroRecall(m) == Mean([k \in References(m) |-> Recall(m, k)], References(m))
\* v is the measured value (NaN recorded as Undefined)
Agrees(v, x) == IF x = Undefined THEN v = Undefined ELSE v - x \in -3..3
\* counting rows
Counted(ref, gen) == [p \in {<<ref[i], gen[i]>> : i \in 1..Len(ref)} |-> Cardinality({i \in 1..Len(ref) : <<ref[i], gen[i]>> = p})]
Same(m, n) == \A p \in DOMAIN m \cup DOMAIN n : At(m, p[1], p[2]) = At(n, p[1], p[2])
\* the matrix made of a sequence of [r, p, n] entries
Entries(es) == [p \in {<<es[i].r, es[i].p>> : i \in 1..Len(es)} |-> es[CHOOSE i \in 1..Len(es) : <<es[i].r, es[i].p>> = p].n]
====
