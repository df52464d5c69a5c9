--------------------------- MODULE OrderedMapGen ---------------------------
(* Every history of Depth calls over a few keys, with the expected status,    *)
(* size and contents after each call.                                         *)
EXTENDS OrderedMap, TLC, Json
CONSTANTS Depth, NKeys
VARIABLES m, hist
Init == m = Empty /\ hist = <<>>
Calls == {<<"set", k>> : k \in 1..NKeys} \cup {<<"rem", k>> : k \in 1..NKeys} \cup {<<"clear", 0>>}
Next == /\ Len(hist) < Depth
        /\ \E c \in Calls :
            LET v == Len(hist) + 1
                n == IF c[1] = "set" THEN Put(m, c[2], v) ELSE IF c[1] = "rem" THEN Del(m, c[2]) ELSE Empty
                h == Append(hist, <<c[1], c[2], [k \in 1..NKeys |-> Lookup(n, k)]>>) IN
            /\ m' = n /\ hist' = h
            /\ Len(h) = Depth => PrintT("@@" \o ToJson(h))
=============================================================================
