---- MODULE Encode ----
(* Categorical attributes as dictionaries that only grow: a label's code is its position in the list
   of labels, in order of first appearance. A saved and restored attribute is a new dictionary
   with the same list. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE dict    \* handle -> sequence of labels
Has1(d, x) == \E i \in 1..Len(d) : d[i] = x
CodeIn(d, x) == CHOOSE i \in 1..Len(d) : d[i] = x
\* Encoding gives the code and, for a new label, adds it at the end.
Enc(h, x, code) == LET d == dict[h] IN
                   IF Has1(d, x) THEN code = CodeIn(d, x) /\ UNCHANGED dict
                   ELSE code = Len(d) + 1 /\ dict' = [dict EXCEPT ![h] = Append(d, x)]
\* Looking a label up gives its code or 0, and adds nothing.
Look(h, x, code) == code = (IF Has1(dict[h], x) THEN CodeIn(dict[h], x) ELSE 0) /\ UNCHANGED dict
Dec(h, code, x) == code \in 1..Len(dict[h]) /\ x = dict[h][code] /\ UNCHANGED dict
Restore(h) == dict' = Append(dict, dict[h])
Fresh == dict' = Append(dict, <<>>)
Same(h, k) == dict[h] = dict[k]
====
