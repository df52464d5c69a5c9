--------------------------- MODULE IterationGen ---------------------------
(* Every sequence of Depth calls on two cursors over containers of up to Max  *)
(* elements, with the expected answers.                                       *)
EXTENDS Iteration, TLC, Json
CONSTANTS Depth, Max
VARIABLES n, p, hist
Init == n \in 0..Max /\ p = <<0, 0>> /\ hist = <<>>
Log(h) == /\ hist' = h /\ n' = n
          /\ Len(h) = Depth => PrintT("@@" \o ToJson([n |-> n, h |-> h]))
Next == /\ Len(hist) < Depth
        /\ \/ \E c \in 1..2 :
               \/ p' = p /\ Log(Append(hist, <<"h", c, IF HasNext(n, p[c]) THEN 1 ELSE 0>>))
               \/ p' = [p EXCEPT ![c] = Advance(n, @)] /\ Log(Append(hist, <<"n", c, NextItem(n, p[c])>>))
           \/ \E k \in 0..(Max + 1) : p' = p /\ Log(Append(hist, <<"f", k, Seen(n, k) * 2 + IF Complete(n, k) THEN 1 ELSE 0>>))
=============================================================================
