------------------------------ MODULE MakersGen -----------------------------
(* Histories of making, looking at and dropping objects in three slots.       *)
EXTENDS Makers, TLC, Json
CONSTANTS Numbers, Depth
VARIABLES s, h
Init == s = [k \in 1 .. 3 |-> <<>>] /\ h = <<>>
Free == {k \in 1 .. 3 : s[k] = <<>>}
MakeOne == /\ Free # {}
           /\ LET j == CHOOSE k \in Free : \A m \in Free : k <= m IN
              \E k \in Kinds, n \in Numbers :
                /\ s' = [s EXCEPT ![j] = <<k, n>>]
                /\ h' = Append(h, [o |-> "make", i |-> j, k |-> k, n |-> n])
DropOne == \E j \in 1 .. 3 : s[j] # <<>> /\ s' = [s EXCEPT ![j] = <<>>] /\ h' = Append(h, [o |-> "drop", i |-> j, k |-> "-", n |-> 0])
Next == Len(h) < Depth /\ (MakeOne \/ DropOne)
Emit == Len(h) = Depth => PrintT("@@" \o ToJson(h))
=============================================================================
