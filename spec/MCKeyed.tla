---- MODULE MCKeyed ----
(* The archive against Keyed: a sequence of named entries, which a reader goes through from the start for
   each key, keeping the last one found. A list is a count and numbered entries. And the generator of
   histories for the real files. *)
EXTENDS Keyed, Json, Randomization
CONSTANTS Keys, Vals, MaxWrites,
          Rewind,   \* FALSE: the reader goes on from where the last read ended
          Last,     \* FALSE: the reader stops at the first entry found
          Depth, Reads
VARIABLES entries, pos, answer, hist
vars == <<kvars, g, store, entries, pos, answer, hist>>
Nil == 0 - 1
Init == items = <<>> /\ state = "open" /\ entries = <<>> /\ pos = 0 /\ answer = <<>> /\ hist = <<>> /\ g = "none" /\ store = "none"
Rest == UNCHANGED <<g, store, hist>>
WriteOne == \E k \in Keys, v \in Vals : Len(items) < MaxWrites /\ Write(k, "u64", v) /\ entries' = Append(entries, <<k, v>>) /\ UNCHANGED <<pos, answer>> /\ Rest
WriteList == \E k \in Keys, s \in UNION {[1..n -> Vals] : n \in 0..2} :
   /\ Len(items) < MaxWrites /\ Write(k, "attrs", s)
   /\ entries' = entries \o <<<<k \o "/n", Len(s)>>>> \o [i \in 1..Len(s) |-> <<k \o "/" \o ToString(i), s[i]>>]
   /\ UNCHANGED <<pos, answer>> /\ Rest
Shut == Close /\ UNCHANGED <<entries, pos, answer>> /\ Rest
From == IF Rewind THEN 1 ELSE pos + 1
Found(name) == {i \in From..Len(entries) : entries[i][1] = name}
Pick1(S) == IF Last THEN CHOOSE i \in S : \A j \in S : j <= i ELSE CHOOSE i \in S : \A j \in S : i <= j
Val(name) == IF Found(name) = {} THEN Nil ELSE entries[Pick1(Found(name))][2]
\* where the reader stops
End(name) == IF Last \/ Found(name) = {} THEN Len(entries) ELSE Pick1(Found(name))
ReadOne == \E k \in Keys : state = "closed" /\ answer' = <<k, "u64", IF Val(k) = Nil THEN "err" ELSE "ok", Val(k)>>
                           /\ pos' = (IF Rewind THEN 0 ELSE End(k)) /\ UNCHANGED <<kvars, entries>> /\ Rest
ReadList == \E k \in Keys :
   /\ state = "closed" /\ Rewind
   /\ answer' = LET n == Val(k \o "/n") IN
        IF n = Nil THEN <<k, "attrs", "err", Nil>>
        ELSE <<k, "attrs", "ok", [i \in 1..n |-> Val(k \o "/" \o ToString(i))]>>
   /\ pos' = 0 /\ UNCHANGED <<kvars, entries>> /\ Rest
Spec == Init /\ [][WriteOne \/ WriteList \/ Shut \/ ReadOne \/ ReadList]_vars
Right == answer # <<>> => MayGet(answer[1], answer[2], answer[3], answer[4])
\* ---- generator ----
One(S) == RandomSubset(1, S)
Simple == {"bytes", "string", "u64", "json", "attr", "meta", "gibberish"}
Rec(e) == hist' = Append(hist, e) /\ UNCHANGED <<kvars, g, store, entries, pos, answer>>
Kinds == Simple \cup {"attrs", "grid", "bare"}
Wrote(k, kd) == \E i \in DOMAIN hist : hist[i].key = k /\ hist[i].kind \in {"grid", "bare"} /\ kd \in {"grid", "bare"}
GWrite == \E k \in One(1..12), kd \in One(Kinds) : ~Wrote(k, kd) /\ Rec([op |-> "Write", key |-> k, kind |-> kd])
GRead == \E k \in One(1..12), kd \in One(Kinds), w \in One(1..2) : Rec([op |-> "Read", key |-> k, kind |-> kd, who |-> w])
\* something that was written
GReadBack == \E i \in One(1..Depth), w \in One(1..2) : Rec([op |-> "Read", key |-> hist[i].key, kind |-> hist[i].kind, who |-> w])
GNext == IF Len(hist) < Depth THEN GWrite
         ELSE IF Len(hist) < Depth + Reads THEN GReadBack \/ GReadBack \/ GRead
         ELSE Len(hist) = Depth + Reads /\ Rec([op |-> "End", key |-> 0, kind |-> "", who |-> 0])
GenSpec == Init /\ [][GNext]_vars
Emit == (Len(hist) = Depth + Reads + 1) => PrintT("SCN " \o ToJson(hist))
====
