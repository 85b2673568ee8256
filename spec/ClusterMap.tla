---- MODULE ClusterMap ----
(* A cluster map: a sequence of clusters, each with its number and a sequence of points. *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE CountIn(_, _)
CountIn(m, p) == IF m = <<>> THEN 0 ELSE Cardinality({i \in DOMAIN Head(m).pts : Head(m).pts[i] = p}) + CountIn(Tail(m), p)
Points(m) == UNION {Range(m[i].pts) : i \in DOMAIN m}
Valid(m) == \A p \in Points(m) : CountIn(m, p) = 1
\* the cluster of each point
Inverse(m) == {<<p, m[i].id>> : i \in DOMAIN m, p \in Points(m)} \cap UNION {{<<p, m[i].id>> : p \in Range(m[i].pts)} : i \in DOMAIN m}
\* how many clusters hold exactly the points S
Copies(m, S) == Cardinality({i \in DOMAIN m : Range(m[i].pts) = S})
SameClusters(a, b) == \A S \in {Range(a[i].pts) : i \in DOMAIN a} \cup {Range(b[i].pts) : i \in DOMAIN b} : Copies(a, S) = Copies(b, S)
Equal(a, b) == Valid(a) /\ Valid(b) /\ SameClusters(a, b)
====
