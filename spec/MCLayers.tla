---- MODULE MCLayers ----
(* A layered network inside the general simulator: it is wired, activated round by round, and read. *)
EXTENDS Layers
CONSTANTS Shapes, W, Xs,
          Offset \* FALSE: the outputs are looked for right after the inputs
VARIABLES ns, w, b, x, vals, round, read
vars == <<ns, w, b, x, vals, round, read>>
Nodes == 1..Size(ns)
Init == /\ ns \in Shapes /\ x \in [1..ns[1] -> Xs] /\ b \in {[i \in Nodes |-> v] : v \in W}
        /\ \E f \in [Wires(ns) \ {<<i, i>> : i \in 1..ns[1]} -> W] :
             w = [s \in Nodes |-> [t \in Nodes |-> IF <<s, t>> \in DOMAIN f THEN f[<<s, t>>] ELSE IF s = t /\ s <= ns[1] THEN 1 ELSE 0]]
        /\ vals = [i \in Nodes |-> IF i <= ns[1] THEN 2 * x[i] ELSE 0] /\ round = 0 /\ read = <<>>
\* a round of the simulator: every node at once
Raw(t) == (IF t <= ns[1] THEN 0 ELSE 2 * b[t]) + SumOver([s \in Nodes |-> w[s][t] * vals[s]], Nodes)
Outs == {Before(ns, Len(ns)) + i : i \in 1..ns[Len(ns)]}
Activate == /\ round < Len(ns) /\ round' = round + 1 /\ UNCHANGED <<ns, w, b, x, read>>
            /\ vals' = [t \in Nodes |-> IF t <= ns[1] \/ t \in Outs THEN Raw(t) ELSE IF Raw(t) > 0 THEN 2 ELSE IF Raw(t) < 0 THEN 0 ELSE 1]
Read == /\ round = Len(ns) /\ read = <<>> /\ UNCHANGED <<ns, w, b, x, vals, round>>
        /\ read' = [i \in 1..ns[Len(ns)] |-> vals[(IF Offset THEN Before(ns, Len(ns)) ELSE ns[1]) + i]]
Next == Activate \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Layered == read # <<>> => read = Scores(ns, w, b, x)
Ends == <>(read # <<>>)
SmallShapes == {<<2, 2>>, <<1, 1, 2>>, <<2, 2, 1>>, <<1, 2, 1, 1>>}
BigShapes == {<<2, 3>>, <<2, 2, 2>>, <<1, 2, 2, 1>>, <<1, 1, 1, 1, 2>>}
====
