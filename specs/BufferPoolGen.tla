---------------------------- MODULE BufferPoolGen ----------------------------
(* Small programs on a pool of buffers.  A call is a name; sizes are named    *)
(* relative to the pool: z none, s small, x exactly what a kept buffer holds, *)
(* o one more, v so large that header and size exceed 32 bits.                *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Shapes, Fills

Calls == {"take:z", "take:x", "take:o", "take:v", "takef:x", "give:0", "givef:0", "givel:0", "givel:1", "givel:2",
          "prune:1", "prune:2", "prune:m"}
Seqs(n) == [1 .. n -> Calls]
Progs == UNION {CASE sh = 1 -> {<<a>> : a \in Seqs(1)}
                  [] sh = 3 -> {<<a>> : a \in Seqs(3)}
                  [] sh = 4 -> {<<a>> : a \in Seqs(4)}
                  [] sh = 11 -> {<<a, b>> : a \in Seqs(1), b \in Seqs(1)}
                  [] sh = 21 -> {<<a, b>> : a \in Seqs(2), b \in Seqs(1)}
                  [] sh = 22 -> {<<a, b>> : a \in Seqs(2), b \in Seqs(2)}
                  [] sh = 111 -> {<<a, b, c>> : a \in Seqs(1), b \in Seqs(1), c \in Seqs(1)} : sh \in Shapes}

VARIABLE p
(* a program without a buffer in it says nothing *)
Init == p \in [th : Progs, fill : Fills]
Next == FALSE /\ p' = p
Emit == PrintT("@@" \o ToJson(p))
=============================================================================
