---- MODULE MCShared ----
(* Two sides of Shared. (1) Spec: goroutines run small programs through an implementation that adds
   an attribute in several steps (look for the group, make it, read its members, write them back and
   hand out the address), under a lock (Locked) or without one; when all have returned, their answers
   must be explained by some order that respects returns before calls, and the addresses must be
   apart. Without the lock, additions get lost. Marking looks the attribute up under the lock and
   marks it under the lock again: that is two critical sections, and still one moment, as attributes
   are never taken away. (2) GenSpec generates programs for the real grid. *)
EXTENDS Shared, TLC, Json
CONSTANTS Threads, Locked, Programs, Depth
VARIABLES impl,   \* groups: set of names; members: group -> sequence of names; cls; rows; fixed
          lock,   \* the goroutine that holds the lock, 0 if none
          pc, loc, \* where each goroutine is in its operation, and what it has read
          k,      \* which operation each is at
          prog,   \* what has been done and answered so far, with call and return times
          now, hist
mvars == <<impl, lock, pc, loc, k, prog, now>>
vars == <<data, pos, impl, lock, pc, loc, k, prog, now, hist>>

A(x) == [op |-> "AddAttr", k |-> "F", n |-> x]
M(x) == [op |-> "Mark", k |-> "F", n |-> x]
All == [op |-> "All"]
X(i) == [op |-> "Extend", x |-> i]
Sets == << << <<A("a"), All>>, <<A("b")>> >>,
           << <<A("a"), M("b")>>, <<A("b"), All>> >>,
           << <<A("a"), All>>, <<X(1), A("b")>> >>,
           << <<A("a")>>, <<A("b")>>, <<M("a"), All>> >>,
           << <<A("a"), M("a")>>, <<A("b"), X(1)>>, <<All, M("b")>> >> >>
Ts(p) == 1..Len(Sets[p])
VARIABLE which
allvars == <<vars, which>>

Init == /\ which \in Programs
        /\ SharedInit /\ hist = <<>>
        /\ impl = [groups |-> {}, members |-> <<>>, cls |-> {}, rows |-> 0, fixed |-> FALSE]
        /\ lock = 0
        /\ pc = [t \in Ts(which) |-> "idle"]
        /\ loc = [t \in Ts(which) |-> <<>>]
        /\ k = [t \in Ts(which) |-> 1]
        /\ prog = [t \in Ts(which) |-> <<>>]
        /\ now = 0
Op(t) == Sets[which][t][k[t]]
Rest == UNCHANGED <<data, pos, hist, which>>
Call(t) == /\ pc[t] = "idle" /\ k[t] <= Len(Sets[which][t])
           /\ pc' = [pc EXCEPT ![t] = "want"]
           /\ prog' = [prog EXCEPT ![t] = Append(@, [o |-> Op(t), call |-> now, ret |-> 1000, ok |-> TRUE, list |-> <<>>, at |-> 0])]
           /\ now' = now + 1
           /\ UNCHANGED <<impl, lock, loc, k>>
Enter(t) == /\ pc[t] \in {"want", "again"}
            /\ Locked => lock = 0
            /\ lock' = IF Locked THEN t ELSE 0
            /\ pc' = [pc EXCEPT ![t] = IF @ = "want" THEN "in" ELSE "mark"]
            /\ UNCHANGED <<impl, loc, k, prog, now>>
Answer(t, ok, list, at) ==
  /\ prog' = [prog EXCEPT ![t][k[t]].ok = ok, ![t][k[t]].list = list, ![t][k[t]].at = at]
  /\ lock' = IF Locked THEN 0 ELSE lock
  /\ pc' = [pc EXCEPT ![t] = "done"]
In(t, o) == pc[t] = "in" /\ Op(t).op = o
AddRead(t) == /\ In(t, "AddAttr") /\ ~impl.fixed
              /\ loc' = [loc EXCEPT ![t] = impl.members]
              /\ pc' = [pc EXCEPT ![t] = "write"]
              /\ UNCHANGED <<impl, lock, k, prog, now>>
AddLate(t) == /\ In(t, "AddAttr") /\ impl.fixed
              /\ Answer(t, FALSE, <<>>, 0) /\ UNCHANGED <<impl, loc, k, now>>
AddWrite(t) == /\ pc[t] = "write"
               /\ impl' = [impl EXCEPT !.groups = {"default-F"}, !.members = Append(loc[t], [k |-> "F", n |-> Op(t).n])]
               /\ Answer(t, TRUE, <<>>, Len(loc[t]) + 1)
               /\ UNCHANGED <<loc, k, now>>
DoAll(t) == In(t, "All") /\ Answer(t, TRUE, impl.members, 0) /\ UNCHANGED <<impl, loc, k, now>>
DoExtend(t) == /\ In(t, "Extend")
               /\ impl' = [impl EXCEPT !.rows = @ + Op(t).x, !.fixed = TRUE]
               /\ Answer(t, TRUE, <<>>, 0) /\ UNCHANGED <<loc, k, now>>
MarkFind(t) == /\ In(t, "Mark")
               /\ IF [k |-> "F", n |-> Op(t).n] \in SetOf(impl.members)
                  THEN pc' = [pc EXCEPT ![t] = "again"] /\ lock' = 0 /\ UNCHANGED prog
                  ELSE Answer(t, FALSE, <<>>, 0)
               /\ UNCHANGED <<impl, loc, k, now>>
MarkSet(t) == /\ pc[t] = "mark"
              /\ impl' = [impl EXCEPT !.cls = @ \cup {[k |-> "F", n |-> Op(t).n]}]
              /\ Answer(t, TRUE, <<>>, 0) /\ UNCHANGED <<loc, k, now>>
Return(t) == /\ pc[t] = "done"
             /\ prog' = [prog EXCEPT ![t][k[t]].ret = now]
             /\ now' = now + 1
             /\ k' = [k EXCEPT ![t] = @ + 1]
             /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ UNCHANGED <<impl, lock, loc>>
Next == Rest /\ \E t \in Ts(which) :
          \/ Call(t) \/ Enter(t) \/ AddRead(t) \/ AddLate(t) \/ AddWrite(t)
          \/ DoAll(t) \/ DoExtend(t) \/ MarkFind(t) \/ MarkSet(t) \/ Return(t)
Spec == Init /\ [][Next]_allvars

\* Some order explains everything and ends in what the grid is.
RECURSIVE Explained(_, _)
Explained(d, p) ==
  IF \A t \in Ts(which) : p[t] = Len(prog[t])
  THEN /\ Names(d) = SetOf(impl.members) /\ d.cls = impl.cls /\ d.rows = impl.rows /\ d.fixed = impl.fixed
       /\ Cardinality(Names(d)) = Len(impl.members)
  ELSE \E t \in Ts(which) :
         /\ p[t] < Len(prog[t])
         /\ \A u \in Ts(which) : (u # t /\ p[u] < Len(prog[u])) => ~(prog[u][p[u] + 1].ret < prog[t][p[t] + 1].call)
         /\ LET x == prog[t][p[t] + 1] IN
            /\ Succeeds(d, x.o) = x.ok
            /\ Lists(d, x.o) = SetOf(x.list)
            /\ Explained(After(d, x.o), [p EXCEPT ![t] = @ + 1])
Ended == \A t \in Ts(which) : k[t] > Len(Sets[which][t])
Linearizable == Ended => Explained(Empty, [t \in Ts(which) |-> 0])
Given == {x \in {<<t, i>> : t \in Ts(which), i \in 1..2} : x[2] <= Len(prog[x[1]]) /\ prog[x[1]][x[2]].at # 0}
Apart == \A x \in Given, y \in Given : x # y => prog[x[1]][x[2]].at # prog[y[1]][y[2]].at
Addressed == Ended => \A x \in Given : /\ prog[x[1]][x[2]].at <= Len(impl.members)
                                       /\ impl.members[prog[x[1]][x[2]].at].n = prog[x[1]][x[2]].o.n

----
\* Programs for the real grid: attribute and group names are made once, everything else is free.
Goroutines == 1..Threads
Kinds == {"F", "C", "B"}
NamesG == {"a", "b", "c", "d", "e", "f"}
Used(o) == \E i \in 1..Len(hist) : hist[i].o = o
UsedAttr(kk, n) == \E i \in 1..Len(hist) : hist[i].o.op \in {"AddAttr", "AddAttrTo"} /\ hist[i].o.k = kk /\ hist[i].o.n = n
H(t, o) == Len(hist) < Depth /\ hist' = Append(hist, [t |-> t, o |-> o]) /\ UNCHANGED <<data, pos, impl, lock, pc, loc, k, prog, now, which>>
GNew == \E t \in Goroutines, g \in {"g1", "g2", "gb"} : ~Used([op |-> "NewGroup", g |-> g]) /\ H(t, [op |-> "NewGroup", g |-> g])
GGet == \E t \in Goroutines, g \in {"g1", "g2", "gb"} : H(t, [op |-> "GetGroup", g |-> g])
GAdd == \E t \in Goroutines, kk \in Kinds, n \in NamesG : ~UsedAttr(kk, n) /\ H(t, [op |-> "AddAttr", k |-> kk, n |-> n])
GAddTo == \E t \in Goroutines, kk \in Kinds, n \in NamesG, g \in {"g1", "g2", "gb"} :
             ~UsedAttr(kk, n) /\ (kk = "B" <=> g = "gb") /\ H(t, [op |-> "AddAttrTo", k |-> kk, n |-> n, g |-> g])
GClass == \E t \in Goroutines, kk \in Kinds, n \in NamesG, op \in {"Mark", "Unmark", "Lookup"} : UsedAttr(kk, n) /\ H(t, [op |-> op, k |-> kk, n |-> n])
GList == \E t \in Goroutines, op \in {"All", "Classes"} : H(t, [op |-> op])
GExtend == Len(hist) > (2 * Depth) \div 3 /\ \E t \in Goroutines, x \in 0..3 : H(t, [op |-> "Extend", x |-> x])
GFinish == Len(hist) = Depth /\ hist' = Append(hist, [t |-> 0, o |-> [op |-> "End"]]) /\ UNCHANGED <<data, pos, impl, lock, pc, loc, k, prog, now, which>>
GenNext == \/ GNew \/ GGet \/ GAdd \/ GAdd \/ GAdd \/ GAddTo \/ GAddTo \/ GClass \/ GClass \/ GClass \/ GList \/ GList \/ GExtend \/ GFinish
GenSpec == Init /\ [][GenNext]_allvars
Emit == (Len(hist) = Depth + 1) => PrintT("SCN " \o ToJson(hist))
====
