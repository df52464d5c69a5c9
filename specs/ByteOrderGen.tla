---------------------------- MODULE ByteOrderGen ----------------------------
(* Numbers with every byte from a few, one at a time and all together.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Bytes
VARIABLES c
Mixed(w) == [1 .. w -> Bytes]
Single(w) == {[k \in 1 .. w |-> IF k = p THEN b ELSE f] : p \in 1 .. w, b \in 0 .. 255, f \in {0, 255}}
Init == \E w \in {2, 4, 8} : \E n \in Mixed(w) \cup Single(w) : c = n
Next == FALSE /\ c' = c
Emit == PrintT("@@" \o ToJson(c))
=============================================================================
