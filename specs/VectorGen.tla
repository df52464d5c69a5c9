------------------------------ MODULE VectorGen ------------------------------
EXTENDS Vector, TLC, Json
CONSTANTS Depth, Caps
VARIABLES q, hist, cap0
Init == cap0 \in Caps /\ q = <<>> /\ hist = <<>>
Calls == {<<"app", 1, 0>>, <<"app", 2, 0>>, <<"uni", 1, 0>>, <<"uni", 2, 0>>, <<"uni", 0, 0>>, <<"res", 0, 0>>, <<"clr", 0, 0>>}
         \cup {<<"rem", 0, k>> : k \in 0 .. 2} \cup {<<"set", 3, k>> : k \in 0 .. 1}
Next == /\ Len(hist) < Depth
        /\ \E cl \in Calls :
            /\ (cl[1] = "set") => cl[3] < Len(q)
            /\ LET a == Apply(q, cl[1], cl[2], cl[3])
                   h == Append(hist, <<cl, a.r, a.q>>) IN
               /\ q' = a.q /\ hist' = h /\ cap0' = cap0
               /\ Len(h) = Depth => PrintT("@@" \o ToJson([c |-> cap0, h |-> h]))
=============================================================================
