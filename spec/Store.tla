---- MODULE Store ----
(* A data set or trained model written to a file that may be damaged before it is read back.
   A file carries the content and a check over all of it; reading verifies the check before it
   believes anything. content: what was last saved ("none": nothing); file: its state on disk. *)
EXTENDS Codec

VARIABLES content, file    \* file \in {"none", "intact", "damaged", "foreign"}
Same(kind, x, y) == IF kind = "grid" THEN Identical(x, y) ELSE x = y
Save(x) == content' = x /\ file' = "intact"
Damage == file \in {"intact", "damaged"} /\ file' = "damaged" /\ UNCHANGED content
Replace == file' = "foreign" /\ UNCHANGED content
\* A load ends in an error or gives a content; what it gives is what was saved.
MayFail == file # "intact"
MayGive(kind, x) == file \in {"intact", "damaged"} /\ Same(kind, content, x)
====
