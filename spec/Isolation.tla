---- MODULE Isolation ----
(* Isolation trees: a subsample drawn with replacement is split at random thresholds until the points are
   alike or the depth limit is reached. A row's path is the depth of its leaf plus a correction for the
   rows left in it. All lengths in millionths. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CTable == <<
  0, 154431, 1207392, 1851656, 2327020, 2706640, 3023665, 3296252, 3535537, 3748880, 3941420, 4116889, 4278091, 4427187, 4565879, 4695532, 4817256, 4931969, 5040438, 5143309,
  5241134, 5334385, 5423473, 5508753, 5590539, 5669106, 5744698, 5817534, 5887806, 5955690, 6021342, 6084906, 6146509, 6206270, 6264295, 6320683, 6375523, 6428899, 6480886, 6531555,
  6580971, 6629195, 6676282, 6722286, 6767255, 6811235, 6854267, 6896393, 6937650, 6978072, 7017693, 7056544, 7094655, 7132052, 7168763, 7204812, 7240222, 7275017, 7309216, 7342840,
  7375907, 7408437, 7440446, 7471951, 7502967, 7533509, 7563592, 7593228, 7622432, 7651216, 7679591, 7707569, 7735161, 7762377, 7789228, 7815723, 7841872, 7867683, 7893165, 7918327,
  7943176, 7967720, 7991966, 8015922, 8039594, 8062990, 8086114, 8108975, 8131577, 8153926, 8176029, 8197889, 8219514, 8240907, 8262074, 8283018, 8303746, 8324261, 8344568, 8364671,
  8384574, 8404280, 8423794, 8443120, 8462261, 8481220, 8500001, 8518608, 8537042, 8555309, 8573410, 8591349, 8609128, 8626751, 8644220, 8661537, 8678706, 8695728, 8712607, 8729345,
  8745944, 8762406, 8778734, 8794929, 8810994, 8826932, 8842743, 8858431, 8873996, 8889441, 8904767, 8919977, 8935073, 8950055, 8964926, 8979687, 8994340, 9008886, 9023327, 9037665,
  9051901, 9066036, 9080071, 9094009, 9107851, 9121597, 9135250, 9148810, 9162279, 9175657, 9188947, 9202149, 9215264, 9228294, 9241240, 9254102, 9266882, 9279581, 9292200, 9304740,
  9317201, 9329586, 9341894, 9354127, 9366285, 9378370, 9390383, 9402324, 9414194, 9425993, 9437724, 9449386, 9460981, 9472509, 9483970, 9495367, 9506699, 9517967, 9529172, 9540314,
  9551395, 9562414, 9573374, 9584273, 9595114, 9605896, 9616620, 9627287, 9637897, 9648452, 9658951, 9669395, 9679785, 9690121, 9700404, 9710635, 9720813, 9730940, 9741016, 9751041,
  9761016, 9770942, 9780819, 9790647, 9800427, 9810160, 9819846, 9829484, 9839077, 9848624, 9858125, 9867582, 9876994, 9886361, 9895686, 9904967, 9914205, 9923400, 9932554, 9941666,
  9950736, 9959766, 9968755, 9977703, 9986612, 9995482, 10004312, 10013103, 10021856, 10030571, 10039248, 10047887, 10056490, 10065055, 10073584, 10082077, 10090534, 10098955, 10107341, 10115692,
  10124008, 10132290, 10140537, 10148751, 10156931, 10165078, 10173192, 10181273, 10189321, 10197337, 10205321, 10213274, 10221195, 10229084, 10236943, 10244771, 10252568, 10260335, 10268073, 10275780,
  10283457, 10291106, 10298725, 10306315, 10313877, 10321410, 10328915, 10336391, 10343840, 10351261, 10358655, 10366022, 10373361, 10380674, 10387960, 10395220, 10402453, 10409661, 10416842, 10423998,
  10431128, 10438233, 10445313, 10452367, 10459397, 10466403, 10473384, 10480340, 10487273, 10494181, 10501066, 10507927, 10514765, 10521579, 10528371, 10535139, 10541884, 10548607, 10555307, 10561985,
  10568641, 10575274, 10581886, 10588476, 10595044, 10601591, 10608116, 10614620, 10621103, 10627565, 10634007, 10640427, 10646827, 10653207, 10659567, 10665906, 10672225, 10678524, 10684804, 10691064>>
Corr(s) == IF s <= 1 THEN 0 ELSE CTable[s]
Close(a, b) == a - b <= 20 /\ b - a <= 20
\* 2(ln(n-1) + g) - 2(n-1)/n: logarithms add up
Ln2(n) == CTable[n] + (2000000 * (n - 1)) \div n - 1154431
ASSUME Close(Ln2(2), 0) /\ Close(Ln2(5), 2 * Ln2(3)) /\ Close(Ln2(7), Ln2(4) + Ln2(3)) /\ Close(Ln2(9), 3 * Ln2(3)) /\ Close(Ln2(10), 2 * Ln2(4)) /\ Close(Ln2(11), Ln2(6) + Ln2(3)) /\ Close(Ln2(15), Ln2(8) + Ln2(3))
ASSUME \A a \in 2..18 : \A b \in 2..18 : a * b < 320 => Close(Ln2(a * b + 1), Ln2(a + 1) + Ln2(b + 1))
ASSUME \A a \in 2..318 : Ln2(a) < Ln2(a + 1) /\ Ln2(a + 2) - Ln2(a + 1) < Ln2(a + 1) - Ln2(a)
\* Whether paths p of the points pt (the first nd of which are the training data) come from one tree grown
\* from n rows within the limit. Total(..) is the set of leaf-size totals such a tree can have.
RECURSIVE Totals(_, _, _, _, _, _, _)
Totals(pt, p, nd, n, lim, Q, d) ==
  {s \in 1..n : \A i \in Q : Close(p[i], d * 1000000 + Corr(s))} \cup
  (IF d >= lim \/ (\E i \in Q : p[i] < (d + 1) * 1000000 - 20) THEN {} ELSE
   UNION {UNION {LET L == TLCEval({i \in Q : pt[i][f] <= v}) R == TLCEval(Q \ L) IN
                 IF (\E i \in L : i <= nd) /\ (\E i \in R : i <= nd)
                 THEN LET a == TLCEval(Totals(pt, p, nd, n, lim, L, d + 1)) IN
                      IF a = {} THEN {} ELSE LET b == TLCEval(Totals(pt, p, nd, n, lim, R, d + 1)) IN {x + y : x \in a, y \in b}
                 ELSE {} : v \in {pt[i][f] : i \in Q}} : f \in 1..Len(pt[1])})
Explains(pt, p, nd, n, lim) == n \in Totals(pt, p, nd, n, lim, 1..Len(pt), 0)
\* A large tree: every path is that of a leaf within the limit; a leaf above the limit keeps rows of one kind only
\* (so of the values of a single column, one was drawn), and equal rows have equal paths.
Plausible(p, n, lim) == \E s \in 1..n : \E d \in {((p - Corr(s) + 500000) \div 1000000)} : d \in 0..lim /\ Close(p, d * 1000000 + Corr(s))
Leaves(p, n, lim) == {s \in 1..n : \E d \in {((p - Corr(s) + 500000) \div 1000000)} : d \in 0..lim /\ Close(p, d * 1000000 + Corr(s))}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Held(_, _, _, _)   \* the fewest rows the leaves along ordered paths can hold, neighbours with the same path in one leaf
Held(p, n, lim, i) == IF i > Len(p) THEN 0 ELSE (IF i > 1 /\ p[i] = p[i - 1] THEN 0 ELSE Least(Leaves(p[i], n, lim))) + Held(p, n, lim, i + 1)
LargeExplained(pt, p, n, lim) ==
  /\ \A i \in 1..Len(pt) : Plausible(p[i], n, lim)
  /\ \A i \in 1..Len(pt) - 1 : pt[i] = pt[i + 1] => p[i] = p[i + 1]
  /\ (Len(pt[1]) = 1 => Held(p, n, lim, 1) <= n)
\* Several trees over two distinct points: the sums of their paths
StumpPath(k, n) == IF k = 0 \/ k = n THEN Corr(n) ELSE 1000000 + Corr(k)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Sorted(_, _, _)   \* non-decreasing sequences of length t from lo..n
Sorted(t, lo, n) == IF t = 0 THEN {<<>>} ELSE UNION {{<<k>> \o s : s \in Sorted(t - 1, k, n)} : k \in lo..n}
StumpsExplain(t, n, sum1, sum2) == \E ks \in Sorted(t, 0, n) :
   /\ Close(sum1, SumSeq([i \in 1..t |-> StumpPath(ks[i], n)]))
   /\ Close(sum2, SumSeq([i \in 1..t |-> StumpPath(n - ks[i], n)]))
\* One tree over two kinds of row, either of which may be left out unless both were bound to be drawn
HalvesExplained(n, both, p1, p2) == \E k \in (IF both THEN 1..n - 1 ELSE 0..n) : Close(p1, StumpPath(k, n)) /\ Close(p2, StumpPath(n - k, n))
====
