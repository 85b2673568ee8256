---- MODULE Shared ----
(* One data set used by several goroutines at once. Reading never changes it, so readers need no
   order among themselves; the operations on its layout (groups, attributes, class marks, growth)
   each take effect at one moment between call and return, in some order that explains every
   answer. The order in which attributes come to stand is left open, as concurrent additions have
   none, so the layout is a set here (Grid keeps the order for a single goroutine). *)
EXTENDS Integers, Sequences, FiniteSets

Empty == [groups |-> {}, attrs |-> {}, cls |-> {}, rows |-> 0, fixed |-> FALSE]

\* An operation o on a layout d: whether it succeeds, what it lists, and the layout after it.
Name(a) == [k |-> a.k, n |-> a.n]
Names(d) == {Name(a) : a \in d.attrs}
Has1(d, o) == [k |-> o.k, n |-> o.n] \in Names(d)
Fits(d, o) == o.g \in d.groups /\ \A a \in d.attrs : a.g = o.g => a.k = o.k
Succeeds(d, o) ==
  CASE o.op = "NewGroup" -> ~d.fixed
    [] o.op = "GetGroup" -> o.g \in d.groups
    [] o.op = "AddAttr" -> ~d.fixed
    [] o.op = "AddAttrTo" -> ~d.fixed /\ Fits(d, o)
    [] o.op \in {"Mark", "Unmark", "Lookup"} -> Has1(d, o)
    [] OTHER -> TRUE
Lists(d, o) ==
  CASE o.op = "All" -> Names(d)
    [] o.op = "Classes" -> d.cls
    [] OTHER -> {}
After(d, o) ==
  IF ~Succeeds(d, o) THEN d
  ELSE CASE o.op = "NewGroup" -> [d EXCEPT !.groups = @ \cup {o.g}]
         [] o.op = "AddAttr" -> [d EXCEPT !.attrs = @ \cup {[k |-> o.k, n |-> o.n, g |-> "default-" \o o.k]}]
         [] o.op = "AddAttrTo" -> [d EXCEPT !.attrs = @ \cup {[k |-> o.k, n |-> o.n, g |-> o.g]}]
         [] o.op = "Mark" -> [d EXCEPT !.cls = @ \cup {[k |-> o.k, n |-> o.n]}]
         [] o.op = "Unmark" -> [d EXCEPT !.cls = @ \ {[k |-> o.k, n |-> o.n]}]
         [] o.op = "Extend" -> [d EXCEPT !.rows = @ + o.x, !.fixed = TRUE]
         [] OTHER -> d

----
VARIABLES data,   \* the layout
          pos     \* how many of each goroutine's operations have taken effect
svars == <<data, pos>>

SharedInit == data = Empty /\ pos = <<>>

\* prog[t] is what goroutine t did, in order: the operation, its answer, and when it was called and returned.
\* The next operation of t may take effect unless some operation that has not yet had already returned before t called.
Ready(prog, t) ==
  /\ pos[t] < Len(prog[t])
  /\ \A u \in 1..Len(prog) : (u # t /\ pos[u] < Len(prog[u])) => ~(prog[u][pos[u] + 1].ret < prog[t][pos[t] + 1].call)
\* It takes effect with the answer it gave: a list names everything once.
SetOf(s) == {s[i] : i \in 1..Len(s)}
Take(prog, t) ==
  /\ Ready(prog, t)
  /\ LET c == prog[t][pos[t] + 1] IN
     /\ Succeeds(data, c.o) = c.ok
     /\ Lists(data, c.o) = SetOf(c.list) /\ Cardinality(SetOf(c.list)) = Len(c.list)
     /\ data' = After(data, c.o)
  /\ pos' = [pos EXCEPT ![t] = @ + 1]
Finished(prog) == \A t \in 1..Len(prog) : pos[t] = Len(prog[t])
====
