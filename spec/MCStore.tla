---- MODULE MCStore ----
(* The container: sections of bytes, then a checksum of them. Damage changes one byte, cuts the
   end off or puts something else in its place. A reader that checks the sum over everything
   before using it only ever gives back what was saved; ReadFast, which does not, gives damage away. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Bytes, Len0, Careful
VARIABLES saved, disk, out
vars == <<saved, disk, out>>
Content == [1..Len0 -> Bytes]
\* position dependent sum: every single change shows
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE (SumTo(s, n - 1) * 3 + s[n] + 1) % 7
Sum(s) == SumTo(s, Len(s))
Magic == 9
File(c) == <<Magic, Len0>> \o c \o <<Sum(c)>>
Init == saved \in Content /\ disk = File(saved) /\ out = <<>>
Flip == \E i \in 1..Len(disk), b \in 0..6 : b # disk[i] /\ disk = File(saved) /\ disk' = [disk EXCEPT ![i] = b] /\ UNCHANGED <<saved, out>>
Cut == \E n \in 0..(Len(disk) - 1) : disk' = SubSeq(disk, 1, n) /\ UNCHANGED <<saved, out>>
Swap == \E s \in {<<>>, <<0>>, <<1, 1, 1>>} : disk' = s /\ UNCHANGED <<saved, out>>
\* the length field says how much there is
Want == IF Len(disk) >= 2 THEN disk[2] ELSE 0
WellFormed == Len(disk) >= 3 /\ disk[1] = Magic /\ Len(disk) = Want + 3
Payload == SubSeq(disk, 3, Len(disk) - 1)
Read == /\ UNCHANGED <<saved, disk>>
        /\ out' = IF Careful
                  THEN IF WellFormed /\ Want = Len0 /\ Sum(Payload) = disk[Len(disk)] THEN Payload ELSE <<>>
                  ELSE IF Len(disk) >= 3 /\ disk[1] = Magic /\ Len(disk) >= Len0 + 2 THEN SubSeq(disk, 3, Len0 + 2) ELSE <<>>
Next == Flip \/ Cut \/ Swap \/ Read
Spec == Init /\ [][Next]_vars
\* <<>>: nothing read, or an error
NeverMisread == out = <<>> \/ out = saved
====
