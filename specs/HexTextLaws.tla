---------------------------- MODULE HexTextLaws ----------------------------
(* The conversions are inverse to each other, and the table of expected       *)
(* results for every small input.                                             *)
EXTENDS HexText, TLC, Json
CONSTANTS BytesLen, TextLen
VARIABLE x
ByteSet == {0, 9, 10, 159, 255}
CharSet == {48, 120, 57, 97, 70, 103, 88, 64}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == \/ \E b \in Seqs(ByteSet, BytesLen), room \in 0..(2 * BytesLen + 4), p \in {0, 1} :
             x = [k |-> "p", b |-> b, room |-> room, pre |-> p, e |-> Print(b, room, p = 1)]
        \/ \E t \in Seqs(CharSet, TextLen), room \in 0..3 :
             x = [k |-> "s", t |-> t, room |-> room, e |-> Parse(t, room)]
        \/ \E v \in 0..255 : x = [k |-> "p", b |-> <<v>>, room |-> 3, pre |-> 0, e |-> Print(<<v>>, 3, FALSE)]
        \/ \E v \in 1..255 : x = [k |-> "s", t |-> <<v, 48>>, room |-> 1, e |-> Parse(<<v, 48>>, 1)]
        \/ \E v \in 1..255 : x = [k |-> "s", t |-> <<48, v>>, room |-> 1, e |-> Parse(<<48, v>>, 1)]
Next == FALSE /\ x' = x
Inverse == x.k = "p" /\ x.e.ok = 1 => Parse(x.e.text, Len(x.b)) = [r |-> Len(x.b), bytes |-> x.b]
Emit == PrintT("@@" \o ToJson(x))
=============================================================================
