---- MODULE Discretise ----
(* Discretisation of one numeric column. Values are integers.
   Equal width: b bins between the least and the greatest training value; the greatest value and
   everything above it go to a last bin of their own, everything below the least to the first.
   ChiMerge: starts with one interval per distinct value and keeps merging neighbours whose class
   distributions differ least. An interval is named by its least value: cuts is the set of those. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES vals, clss,   \* the column and the class of each row
          cuts,
          par           \* [minr, maxr, sig, k, mult]: least and most intervals, index of the significance level, number of classes, how often each row is there
dvars == <<vals, clss, cuts, par>>
BinOf(v, lo, hi, b) == IF v <= lo \/ hi = lo THEN 0 ELSE IF v >= hi THEN b ELSE ((v - lo) * b) \div (hi - lo)

Distinct(vs) == {vs[i] : i \in 1..Len(vs)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* the interval that holds v
CutOf(cs, v) == IF {x \in cs : x <= v} = {} THEN MinOf(cs) ELSE MaxOf({x \in cs : x <= v})
IndexOf(cs, v) == Cardinality({x \in cs : x < CutOf(cs, v)})
\* Chi-squared statistic of two rows of counts, in thousandths, each term rounded down.
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(SubSeq(s, 2, Len(s)))
Term(o, C, R, N) == LET d == o * N - C * R IN
   IF C = 0 THEN 0 ELSE IF 2 * C * R * par.mult < N THEN par.mult * par.mult * ((2000 * d * d) \div (N * N)) ELSE par.mult * ((1000 * d * d) \div (N * C * R))
Chi(a, b) == LET ra == SumSeq(a) rb == SumSeq(b) n == ra + rb IN
   SumSeq([k \in 1..Len(a) |-> Term(a[k], a[k] + b[k], ra, n) + Term(b[k], a[k] + b[k], rb, n)])
\* critical values in thousandths, by degrees of freedom and significance level 50, 80, 90, 95 %
Crit == <<<<455, 1642, 2706, 3841>>, <<1386, 3219, 4605, 5991>>, <<2366, 4642, 6251, 7815>>,
          <<3357, 5989, 7779, 9488>>, <<4351, 7289, 9236, 11070>>, <<5348, 8558, 10645, 12592>>, <<6346, 9803, 12017, 14067>>>>
CritNow == Crit[par.k - 1][par.sig]
Slack == 20
Counts(cs) == LET at == TLCEval([i \in 1..Len(vals) |-> CutOf(cs, vals[i])]) IN
  TLCEval([x \in cs |-> [k \in 1..par.k |-> Cardinality({i \in 1..Len(vals) : clss[i] = k /\ at[i] = x})]])
\* Chi of every cut that can be removed (it would merge into the interval below it)
Chis(cs) == LET ct == Counts(cs) IN TLCEval([x \in cs \ {MinOf(cs)} |-> Chi(ct[MaxOf({y \in cs : y < x})], ct[x])])
Least(f) == MinOf({f[x] : x \in DOMAIN f})

Column(vs, ks, p) == vals' = vs /\ clss' = ks /\ cuts' = Distinct(vs) /\ par' = p
MinR == IF par.minr < 2 THEN 2 ELSE par.minr
MaxR == IF par.maxr <= MinR THEN MinR + 1 ELSE par.maxr
\* One round: some of the least different neighbours merge, never below the least number of intervals.
Merge == /\ Cardinality(cuts) > MinR
         /\ LET f == Chis(cuts) m == TLCEval(Least(f)) IN
            /\ Cardinality(cuts) > MaxR \/ m <= CritNow + CritNow \div 20 + Slack
            /\ \E S \in SUBSET {x \in DOMAIN f : f[x] <= m + Slack \div 2} :
                 S # {} /\ Cardinality(S) <= Cardinality(cuts) - MinR /\ cuts' = cuts \ S
         /\ UNCHANGED <<vals, clss, par>>
Settled(cs) == IF Cardinality(cs) <= MinR THEN TRUE
               ELSE Cardinality(cs) <= MaxR /\ Least(Chis(cs)) >= CritNow - CritNow \div 20 - Slack
MayStop == Settled(cuts)
----
CutsAreValues == cuts \subseteq Distinct(vals)
CoversLeast == vals # <<>> => MinOf(Distinct(vals)) \in cuts
NotTooFew == vals # <<>> => Cardinality(cuts) >= (IF Cardinality(Distinct(vals)) < MinR THEN Cardinality(Distinct(vals)) ELSE MinR)
====
