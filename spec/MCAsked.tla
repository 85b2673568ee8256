---- MODULE MCAsked ----
(* Two sides of Asked. (1) Spec: goroutines ask and fit through an implementation that takes several
   steps for each: a question is put somewhere, then the answer is looked up from there and from what
   the model has learnt; what is learnt is collected somewhere, then kept. When each call has a place
   of its own (Place = "call") every answer is the one the model gives alone. When questions are put
   into the model (Place = "model") or what is being learnt into the package (Place = "package"), some
   answer is another's. (2) GenSpec generates rounds of work for real models. *)
EXTENDS Asked, TLC, Json
CONSTANTS Models, Datas, Queries, Threads, Place, Calls, Depth
VARIABLES doing,   \* what each goroutine is at: op "none" if nothing
          step,    \* how far it is with it
          learnt,  \* model -> what it has learnt
          own,     \* the place of each goroutine
          inModel, \* the place of each model
          inPackage,
          got,     \* every answer given, with the question and what the model was fitted to
          calls, hist
vars == <<fitted, doing, step, learnt, own, inModel, inPackage, got, calls, hist>>

\* The answer to question q of a model fitted to d: any that tells them apart.
A(d, q) == 10 * d + q
None == Work("none", 0, 0)
Init == /\ AskedInit(Models)
        /\ doing = [t \in Threads |-> None] /\ step = [t \in Threads |-> 0]
        /\ learnt = [m \in Models |-> 0]
        /\ own = [t \in Threads |-> 0] /\ inModel = [m \in Models |-> 0] /\ inPackage = 0
        /\ got = {} /\ calls = 0 /\ hist = <<>>
Begin(t, w) ==
  /\ calls < Calls /\ doing[t] = None
  /\ w.op = "Ask" => fitted[w.m] # 0
  /\ \A u \in Threads : (doing[u] # None) => Apart(doing[u], w)
  /\ doing' = [doing EXCEPT ![t] = w] /\ step' = [step EXCEPT ![t] = 1] /\ calls' = calls + 1
  /\ UNCHANGED <<fitted, learnt, own, inModel, inPackage, got, hist>>
\* The first step writes to the place this kind of work uses, the second reads it.
First(t) ==
  /\ step[t] = 1
  /\ CASE doing[t].op = "Ask" /\ Place = "model" -> inModel' = [inModel EXCEPT ![doing[t].m] = doing[t].x] /\ UNCHANGED <<own, inPackage>>
       [] doing[t].op = "Fit" /\ Place = "package" -> inPackage' = doing[t].x /\ UNCHANGED <<own, inModel>>
       [] OTHER -> own' = [own EXCEPT ![t] = doing[t].x] /\ UNCHANGED <<inModel, inPackage>>
  /\ step' = [step EXCEPT ![t] = 2]
  /\ UNCHANGED <<fitted, doing, learnt, got, calls, hist>>
Second(t) ==
  /\ step[t] = 2
  /\ LET w == doing[t] IN
     IF w.op = "Ask"
     THEN /\ got' = got \cup {[d |-> fitted[w.m], q |-> w.x, a |-> A(learnt[w.m], IF Place = "model" THEN inModel[w.m] ELSE own[t])]}
          /\ UNCHANGED <<fitted, learnt>>
     ELSE /\ fitted' = [fitted EXCEPT ![w.m] = w.x]
          /\ learnt' = [learnt EXCEPT ![w.m] = IF Place = "package" THEN inPackage ELSE own[t]]
          /\ UNCHANGED got
  /\ doing' = [doing EXCEPT ![t] = None] /\ step' = [step EXCEPT ![t] = 0]
  /\ UNCHANGED <<own, inModel, inPackage, calls, hist>>
Next == \E t \in Threads : First(t) \/ Second(t) \/ \E m \in Models :
          \/ \E d \in Datas : Begin(t, Work("Fit", m, d))
          \/ \E q \in Queries : Begin(t, Work("Ask", m, q))
Spec == Init /\ [][Next]_vars
Undisturbed == \A g \in got : g.a = A(g.d, g.q)
Kept == \A m \in Models : (\A t \in Threads : ~(doing[t].op = "Fit" /\ doing[t].m = m)) => learnt[m] = fitted[m]
\* Some answer is given while another goroutine is in the middle of its own call to the same model.
Overlap == ~\E t \in Threads, u \in Threads : t # u /\ step[t] = 2 /\ step[u] = 2 /\ doing[t].m = doing[u].m

----
\* Rounds of work for real models: hist is a sequence of rounds, the last of them still growing.
Grow(w) == /\ Len(hist) > 0 /\ Len(hist) < Depth /\ Len(hist[Len(hist)]) < Cardinality(Threads)
           /\ w.op # "Fit" => fitted[w.m] # 0
           /\ (\A i \in 1..Len(hist[Len(hist)]) : Apart(hist[Len(hist)][i], w)) = TRUE
           /\ hist' = [hist EXCEPT ![Len(hist)] = Append(@, w)]
           /\ UNCHANGED fitted
Close == /\ Len(hist) < Depth
         /\ Len(hist) > 0 => Len(hist[Len(hist)]) > 1
         /\ fitted' = IF Len(hist) = 0 THEN fitted ELSE AfterRound(hist[Len(hist)])
         /\ hist' = Append(hist, <<>>)
GenNext == /\ UNCHANGED <<doing, step, learnt, own, inModel, inPackage, got, calls>>
           /\ \/ Close
              \/ \E m \in Models :
                   \/ \E d \in Datas : Grow(Work("Fit", m, d))
                   \/ \E q \in Queries, op \in {"Ask", "Save"} : Grow(Work(op, m, q))
GenSpec == Init /\ [][GenNext]_vars
Emit == (Len(hist) = Depth) => PrintT("SCN " \o ToJson(hist))
====
