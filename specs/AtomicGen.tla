------------------------------ MODULE AtomicGen -----------------------------
(* Pairs and triples of operations for the threads of a program.              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Shapes
Ops == <<"load", "load_acq", "store", "store_rls", "cas", "faa", "aaf", "aaf_rls", "add", "incr", "incr_rls", "decr", "decr_rls", "fas", "setmax">>
N == Len(Ops)
VARIABLES prog
Threads(sh) == CASE sh = 1 -> {<<<<a>>>> : a \in 1 .. N}
                 [] sh = 11 -> {<<<<a>>, <<b>>>> : a \in 1 .. N, b \in 1 .. N}
                 [] sh = 111 -> {<<<<a>>, <<b>>, <<c>>>> : a \in 1 .. N, b \in 1 .. N, c \in 1 .. N}
                 [] sh = 21 -> {<<<<a, b>>, <<c>>>> : a \in 1 .. N, b \in 1 .. N, c \in 1 .. N}
Init == \E sh \in Shapes : \E ps \in Threads(sh) : prog = ps
Next == FALSE /\ prog' = prog
Emit == PrintT("@@" \o ToJson([t \in 1 .. Len(prog) |-> [k \in 1 .. Len(prog[t]) |-> Ops[prog[t][k]]]]))
=============================================================================
