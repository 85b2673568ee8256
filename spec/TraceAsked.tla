---- MODULE TraceAsked ----
(* Judges what real models answered in rounds of work by goroutines running at once. *)
EXTENDS Asked, TraceKit
VARIABLES table, \* model -> question -> the answer it gives alone; <<>> while that is not known
          owed   \* model -> answers it gave before that was known: <<question, answer>>
tvars == <<fitted, table, owed>>
Ms == 1..3
TraceInit == AskedInit(Ms) /\ table = [m \in Ms |-> <<>>] /\ owed = [m \in Ms |-> {}] /\ CaseInit

\* The kind of model. alone[d][q] is the answer to q of a model fitted to d with nothing else going
\* on, when fitting leaves nothing to chance (sure); otherwise a model is asked once it is fitted.
TKind == IsEvent("Kind") /\ l = 1 /\ UNCHANGED tvars
K == Cases[c].ev[1]
TRound == /\ IsEvent("Round") /\ l > 1
          /\ Round(Ev.work)
          /\ (\A i \in 1..Len(Ev.work) :
                /\ Ev.work[i].ok
                /\ (Ev.work[i].op # "Fit" /\ table[Ev.work[i].m] # <<>>) => Ev.work[i].got = table[Ev.work[i].m][Ev.work[i].x]
                /\ Ev.work[i].op = "Fit" => owed[Ev.work[i].m] = {}) = TRUE
          /\ owed' = [m \in Ms |-> IF table[m] # <<>> THEN {}
               ELSE owed[m] \cup {<<Ev.work[i].x, Ev.work[i].got>> : i \in {j \in 1..Len(Ev.work) : Ev.work[j].op # "Fit" /\ Ev.work[j].m = m}}]
          /\ table' = [m \in Ms |-> IF \E i \in 1..Len(Ev.work) : Ev.work[i].op = "Fit" /\ Ev.work[i].m = m
                                    THEN IF K.sure THEN K.alone[AfterRound(Ev.work)[m]] ELSE <<>>
                                    ELSE table[m]]
\* A model is asked everything, alone.
TAlone == /\ IsEvent("Alone") /\ l > 1
          /\ fitted[Ev.m] # 0
          /\ Ev.answers # <<>>
          /\ table[Ev.m] # <<>> => Ev.answers = table[Ev.m]
          /\ (\A p \in owed[Ev.m] : Ev.answers[p[1]] = p[2]) = TRUE
          /\ table' = [table EXCEPT ![Ev.m] = Ev.answers]
          /\ owed' = [owed EXCEPT ![Ev.m] = {}]
          /\ UNCHANGED fitted
TraceNext == TKind \/ TRound \/ TAlone
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, c, l>>
====
