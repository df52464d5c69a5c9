-------------------------- MODULE StringBuilderGen --------------------------
(* Every sequence of pieces up to the depth, for every small buffer size,     *)
(* fixed and growing.                                                         *)
EXTENDS StringBuilder, TLC, Json
CONSTANTS Depth, Caps
VARIABLES s, hist, c0
Init == /\ \E c \in Caps, g \in {0, 1} : s = [text |-> <<>>, cap |-> c, grow |-> g] /\ c0 = <<c, g>>
        /\ hist = <<>>
Texts == {<<>>, <<97>>, <<98, 99, 100>>, <<101, 102, 103, 104, 105>>}
Hexes == {<<>>, <<10>>, <<171, 0>>}
Next == /\ Len(hist) < Depth
        /\ \E cl \in ({<<"str", t>> : t \in Texts} \cup {<<"chr", <<120>>>>} \cup {<<"hex", t>> : t \in Hexes}) :
            LET a == IF cl[1] = "hex" THEN AppendHex(s, cl[2]) ELSE AppendText(s, cl[2])
                h == Append(hist, <<cl, a.r, a.s.text>>) IN
            /\ s' = a.s /\ hist' = h /\ c0' = c0
            /\ Len(h) = Depth => PrintT("@@" \o ToJson([c |-> c0, h |-> h]))
=============================================================================
