---- MODULE MCText ----
(* A reader which counts the lines, then takes them one after another into a grid of that size, for every small file,
   and every place where the source may fail. Careless = TRUE takes lines of any length, and must be caught. *)
EXTENDS Text
CONSTANTS MaxLines, MaxWidth, Careless
F(s, n, b) == [text |-> s, num |-> n, isnum |-> b]
Field == {F("a", "", FALSE), F("b", "", FALSE), F("1", "1", TRUE)}
Lns == UNION {[1..w -> Field] : w \in 0..MaxWidth}
At(ty, nm) == [type |-> ty, name |-> nm, labels |-> IF ty = "cat" THEN <<"a", "1">> ELSE <<>>]
NM == <<"x", "y", "z">>
Decl == UNION {{[k \in 1..w |-> At(t[k], NM[k])] : t \in [1..w -> {"cat", "float", "bad"}]} : w \in 0..2}
Files == {[form |-> "arff", names |-> <<>>, attrs |-> as, lines |-> ls, split |-> TRUE] : as \in Decl, ls \in UNION {[1..n -> Lns] : n \in 0..MaxLines}}
    \cup {[form |-> "csv", names |-> SubSeq(NM, 1, w), attrs |-> <<>>, lines |-> ls, split |-> b] : w \in 0..2, ls \in UNION {[1..n -> Lns] : n \in 0..MaxLines}, b \in BOOLEAN}
VARIABLES f, at, rows, out, cut
vars == <<g, store, f, at, rows, out, cut>>
As == IF f.form = "arff" THEN f.attrs ELSE IF f.lines = <<>> \/ Len(f.lines[1]) # Len(f.names) THEN <<>> ELSE Typed(f.names, [r \in 1..Len(f.lines) |-> IF Len(f.lines[r]) = Len(f.names) THEN f.lines[r] ELSE f.lines[1]])
Init == f \in Files /\ cut \in 0..(Len(f.lines) + 1) /\ at = 0 /\ rows = <<>> /\ out = "none" /\ g = "none" /\ store = "none"
Fail == out' = "err" /\ UNCHANGED <<g, store, f, at, rows, cut>>
Header == /\ at = 0 /\ out = "none"
          /\ IF ~f.split \/ As = <<>> \/ (\E k \in 1..Len(As) : As[k].type = "bad") THEN Fail
             ELSE at' = 1 /\ UNCHANGED <<g, store, f, rows, out, cut>>
Fits(ln) == Len(ln) = Len(As) /\ \A k \in 1..Len(As) : IF As[k].type = "cat" THEN ln[k].text \in Rng(As[k].labels) ELSE ln[k].isnum
Pad(ln) == [k \in 1..Len(As) |-> IF k <= Len(ln) THEN ln[k] ELSE F("", "", FALSE)]
Line == /\ at \in 1..Len(f.lines) /\ out = "none"
        /\ IF at > cut THEN Fail
           ELSE IF Fits(f.lines[at]) \/ (Careless /\ Len(f.lines[at]) < Len(As) /\ \A k \in 1..Len(f.lines[at]) : Fits(f.lines[at]) \/ As[k].type = "float" => f.lines[at][k].isnum)
                THEN at' = at + 1 /\ rows' = Append(rows, Pad(f.lines[at])) /\ UNCHANGED <<g, store, f, out, cut>>
           ELSE Fail
End == /\ at = Len(f.lines) + 1 /\ out = "none"
       /\ IF at > cut THEN Fail ELSE out' = "ok" /\ UNCHANGED <<g, store, f, at, rows, cut>>
Next == Header \/ Line \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Whole == cut = Len(f.lines) + 1
\* no answer is given for a source that failed, and for a whole one the answer is right
Right == out # "none" => IF Whole THEN (out = "ok") = Sound(f) ELSE out = "err"
Says1 == out = "ok" => (Len(rows) = Len(f.lines) /\ \A r \in 1..Len(rows) : rows[r] = f.lines[r])
Done == <>(out # "none")
====
