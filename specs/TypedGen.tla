------------------------------ MODULE TypedGen ------------------------------
(* Every short history of typed storing calls.                                *)
EXTENDS Typed, TLC, Json
CONSTANTS MaxLen, Forms, Containers
VARIABLES c, h
Ops(n) == IF c = "m" THEN {<<"set", j>> : j \in 0 .. 2}
          ELSE {<<"append", 0>>, <<"prepend", 0>>} \cup {<<o, j>> : o \in {"insert", "set"}, j \in 0 .. n + 1}
Init == c \in Containers /\ h = <<>>
Next == /\ Len(h) < MaxLen /\ c' = c
        /\ \E f \in Forms, o \in Ops(Len(h)) : h' = Append(h, [op |-> o[1], form |-> f, i |-> o[2], v |-> Len(h) + 1])
Emit == Len(h) = MaxLen => PrintT("@@" \o ToJson([c |-> c, h |-> h]))
=============================================================================
