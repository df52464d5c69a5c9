------------------------------ MODULE SourceGen ------------------------------
(* Programs of requests: sizes around the halves and the whole of a refill,   *)
(* and which uses of the source fail.                                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Shapes, Masks
Calls == {"q:0", "w:0", "b:1", "b:8", "b:7", "b:4092", "b:8180", "b:8184", "b:8191", "b:8192", "b:-1", "b:0"}
Seqs(n) == [1 .. n -> Calls]
Progs == UNION {CASE sh = 2 -> {<<a>> : a \in Seqs(2)}
                  [] sh = 3 -> {<<a>> : a \in Seqs(3)}
                  [] sh = 11 -> {<<a, b>> : a \in Seqs(1), b \in Seqs(1)}
                  [] sh = 21 -> {<<a, b>> : a \in Seqs(2), b \in Seqs(1)}
                  [] sh = 22 -> {<<a, b>> : a \in Seqs(2), b \in Seqs(2)}
                  [] sh = 111 -> {<<a, b, c>> : a \in Seqs(1), b \in Seqs(1), c \in Seqs(1)} : sh \in Shapes}
VARIABLE p
Init == p \in [th : Progs, fail : Masks]
Next == FALSE /\ p' = p
Emit == PrintT("@@" \o ToJson(p))
=============================================================================
