---- MODULE MCCodec ----
(* Every small text file: parse it, write the result, parse that, with and without a template.
   Parsing what was written gives back the values; encodings agree between a file and its template. *)
EXTENDS Codec
CONSTANTS MaxLines
Field == {[text |-> "", num |-> "", isnum |-> FALSE], [text |-> "a", num |-> "", isnum |-> FALSE],
          [text |-> "b", num |-> "", isnum |-> FALSE], [text |-> "1", num |-> "1", isnum |-> TRUE]}
Lines == UNION {[1..n -> [1..2 -> Field]] : n \in 1..MaxLines}
VARIABLE first
NM == <<"x", "y">>
FieldsOf(d) == [r \in 1..Len(d.rows) |-> [k \in 1..2 |->
   IF d.attrs[k].type = "cat" THEN (IF d.attrs[k].labels = <<>> THEN [text |-> "", num |-> "", isnum |-> FALSE]
       ELSE [text |-> LabelOf(d.attrs[k], d.rows[r][k], r, k), num |-> "", isnum |-> FALSE])
   ELSE [text |-> d.rows[r][k], num |-> d.rows[r][k], isnum |-> TRUE]]]
Init == \E ls \in Lines : /\ Readable(Typed(NM, ls), ls)
                          /\ \A r \in 1..Len(ls), k \in 1..2 : Typed(NM, ls)[k].type = "cat" => ~ls[r][k].isnum
                          /\ g = ParseCSV(NM, ls) /\ store = <<>> /\ first = g
Write == store = <<>> /\ store' = FieldsOf(g) /\ UNCHANGED <<g, first>>
Read == store # <<>> /\ g' = ParseCSV(NM, store) /\ UNCHANGED <<store, first>>
ReadLike == store # <<>> /\ Len(store) = 2 /\ Len(g.rows) = 2 /\ g' = ParseLike(first, NM, <<store[2], store[1]>>) /\ store' = <<>> /\ UNCHANGED first
Next == Write \/ Read \/ ReadLike
Spec == Init /\ [][Next]_<<g, store, first>>
HasLabels == \A k \in 1..2 : first.attrs[k].type = "cat" => first.attrs[k].labels # <<>>
RoundTrip == (HasLabels /\ store # <<>>) => SameValues(g, ParseCSV(NM, store)) /\ Written(g, NM, store)
Encodings == HasLabels => \A k \in 1..2 : g.attrs[k].type = first.attrs[k].type
TemplateKeepsCodes == (HasLabels /\ Len(first.rows) = 2) =>
   LET t == ParseLike(first, NM, <<FieldsOf(first)[2], FieldsOf(first)[1]>>) IN t.attrs = first.attrs /\ t.rows[2] = first.rows[1]
SelfSame == Identical(g, g) /\ (HasLabels => SameValues(g, g))
====
