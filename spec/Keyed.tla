---- MODULE Keyed ----
(* The keyed file a model is saved in: entries are written one after another under keys, and after the
   file is closed they can be read in any order, any number of times, by any number of readers.
   An entry is [class, key, kind, val]; entries of different classes (single values, lists of attributes,
   data sets) do not get in each other's way. Of two entries for one key the later counts. *)
EXTENDS Codec
VARIABLES items, state      \* state \in {"none", "open", "closed"}
kvars == <<items, state>>
Class(kind) == IF kind \in {"attrs", "grid"} THEN kind ELSE "one"
Create == items' = <<>> /\ state' = "open"
Write(key, kind, val) == state = "open" /\ items' = Append(items, [class |-> Class(kind), key |-> key, kind |-> kind, val |-> val]) /\ UNCHANGED state
Close == state = "open" /\ state' = "closed" /\ UNCHANGED items
Of(class, key) == {i \in DOMAIN items : items[i].class = class /\ items[i].key = key}
Stored(class, key) == Of(class, key) # {}
Latest(class, key) == items[CHOOSE i \in Of(class, key) : \A j \in Of(class, key) : j <= i]
SameAs(kind, x, y) == IF kind = "grid" THEN Identical(x, y) ELSE x = y
\* reading what is there gives it back; reading what is not there is an error, as is reading three bytes of
\* gibberish as anything but bytes
MayGet(key, kind, res, val) ==
  IF ~Stored(Class(kind), key) THEN res = "err"
  ELSE LET it == Latest(Class(kind), key) IN
       IF it.kind = kind THEN res = "ok" /\ SameAs(kind, it.val, val)
       ELSE it.kind = "bytes" => res = "err"
====
