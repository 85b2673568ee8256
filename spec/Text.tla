---- MODULE Text ----
(* Text files as they come, damaged ones included, and what reading them may answer. A file f is its declarations
   (names for CSV; attributes, some of a kind no reader knows ("bad"), for ARFF), its lines of fields, as many as there
   happen to be, and whether it can be split into fields at all (quoting).  A source may also fail before its end. *)
EXTENDS Codec
Width(f) == IF f.form = "arff" THEN Len(f.attrs) ELSE Len(f.names)
Rect(f) == \A r \in 1..Len(f.lines) : Len(f.lines[r]) = Width(f)
Sound(f) == f.split /\ Width(f) > 0 /\ Rect(f) /\
  IF f.form = "arff" THEN (\A k \in 1..Len(f.attrs) : f.attrs[k].type # "bad") /\ Declared(f.attrs, f.lines)
  ELSE Len(f.lines) > 0 /\ Readable(Typed(f.names, f.lines), f.lines)
Says(f) == IF f.form = "arff" THEN ParseARFF(f.attrs, f.lines) ELSE ParseCSV(f.names, f.lines)
\* A CSV file of names alone gives no types: it may be refused, or read as a data set without rows.
Bare(f) == f.form = "csv" /\ f.split /\ f.names # <<>> /\ f.lines = <<>>
\* The same where a template gives the types.
SoundLike(f, t) == f.split /\ Len(f.lines) > 0 /\ Rect(f) /\ Rng(f.names) = Rng(Names(t)) /\
  Readable([k \in 1..Len(f.names) |-> t.attrs[Idx(Names(t), f.names[k])]], f.lines)
\* What may be answered: the data set the file says, or an error where it says none.
Answer(f, ok, out) == IF Sound(f) THEN ok /\ Identical(Says(f), out)
                      ELSE IF Bare(f) THEN ok => out.rows = <<>> /\ Rng(Names(out)) = Rng(f.names)
                      ELSE ~ok
====
