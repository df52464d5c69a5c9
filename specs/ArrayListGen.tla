---------------------------- MODULE ArrayListGen ----------------------------
EXTENDS ArrayList, TLC, Json
CONSTANTS Depth, Caps, Blks
VARIABLES l, hist, c0
Other == [q |-> <<1009, 1008>>, cap |-> 2, blk |-> 0]
Init == \E c \in Caps, b \in Blks : l = New(c, b) /\ c0 = <<c, b>> /\ hist = <<>>
Calls == {<<"app", 0>>, <<"pre", 0>>, <<"cat", 0>>, <<"cat", 1>>}
         \cup {<<"ins", k>> : k \in {1, 3}} \cup {<<"set", k>> : k \in {0, 1, 2, 4}}
         \cup {<<"rem", k>> : k \in {0, 1, 3}} \cup {<<"trim", k>> : k \in {0, 1, 2}}
Next == /\ Len(hist) < Depth
        /\ \E cl \in Calls :
            LET a == Edit(l, IF cl[1] = "cat" /\ cl[2] = 0 THEN l ELSE Other, cl[1], cl[2], 1001 + Len(hist))
                h == Append(hist, <<cl, 1001 + Len(hist), a.r, a.l.q, Take(a.l, 2).q, Drop(a.l, 2).q>>) IN
            /\ l' = a.l /\ hist' = h /\ c0' = c0
            /\ Len(h) = Depth => PrintT("@@" \o ToJson([c |-> c0, h |-> h]))
=============================================================================
