---- MODULE MCDensity ----
(* The algorithm: points are visited in order; a core point that is in no cluster starts one, which grows
   along neighbourhoods of core points. Checked against the definition for every small set of points. *)
EXTENDS Density
CONSTANTS N, Span, Min, Eps2,
          Border, \* FALSE: points once taken for noise are never put in a cluster
          Chain   \* FALSE: a cluster grows by one neighbourhood only
VARIABLES pts, nb, todo, noise, own, queue, cur
vars == <<pts, nb, todo, noise, own, queue, cur>>
Init == /\ pts \in [1..N -> {<<x>> : x \in 0..Span}] /\ nb = Hoods(pts, "euclidean", Eps2)
        /\ todo = 1 /\ noise = {} /\ own = [p \in 1..N |-> 0] /\ queue = {} /\ cur = 0
Visit == /\ queue = {} /\ todo <= N /\ todo' = todo + 1 /\ UNCHANGED <<pts, nb>>
         /\ IF own[todo] # 0 THEN UNCHANGED <<noise, own, queue, cur>>
            ELSE IF Cardinality(nb[todo]) < Min THEN noise' = noise \cup {todo} /\ UNCHANGED <<own, queue, cur>>
            ELSE /\ cur' = cur + 1 /\ own' = [own EXCEPT ![todo] = cur + 1]
                 /\ queue' = nb[todo] \ {todo} /\ UNCHANGED noise
Grow == /\ queue # {} /\ \E p \in queue :
             IF own[p] # 0 \/ (~Border /\ p \in noise) THEN queue' = queue \ {p} /\ UNCHANGED own
             ELSE /\ own' = [own EXCEPT ![p] = cur]
                  /\ queue' = (queue \ {p}) \cup (IF Chain /\ Cardinality(nb[p]) >= Min THEN {q \in nb[p] : own'[q] = 0} ELSE {})
        /\ UNCHANGED <<pts, nb, todo, noise, cur>>
Next == Visit \/ Grow
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Members(k) == {p \in 1..N : own[p] = k}
Final == {Members(k) : k \in {k \in 1..cur : Cardinality(Members(k)) >= Min}}
Correct == (queue = {} /\ todo > N) => Clustering(nb, Min, Final)
Ends == <>(queue = {} /\ todo > N)
====
