--------------------------- MODULE StringBuilder ---------------------------
(* A text under construction: s.text the characters so far, s.cap the buffer  *)
(* size including the terminator, s.grow whether it may grow.                 *)
EXTENDS Wide

Room(s) == s.cap - 1 - Len(s.text)
Add(s, t) == [s EXCEPT !.text = @ \o t]

(* hex bytes: [0A 0B] *)
Triple(b) == <<HexDigitUpper(b \div 16), HexDigitUpper(b % 16), 32>>
RECURSIVE Triples(_)
Triples(bs) == IF bs = <<>> THEN <<>> ELSE Triple(Head(bs)) \o Triples(Tail(bs))
HexText(bs) == <<91>> \o (IF bs = <<>> THEN <<>> ELSE SubSeq(Triples(bs), 1, 3 * Len(bs) - 1)) \o <<93>>

Min(a, b) == IF a < b THEN a ELSE b

(* outcome: [s |-> state, r |-> success] *)
AppendText(s, t) ==
    IF s.grow = 1 \/ Len(t) <= Room(s) THEN [s |-> Add(s, t), r |-> 1]
    ELSE [s |-> Add(s, SubSeq(t, 1, Room(s))), r |-> 0]

(* what does not fit is cut between whole bytes *)
AppendHex(s, bs) ==
    LET t == HexText(bs) IN
    IF s.grow = 1 \/ Len(t) <= Room(s) THEN [s |-> Add(s, t), r |-> 1]
    ELSE IF Room(s) = 0 THEN [s |-> s, r |-> 0]
    ELSE LET k == Min(Len(bs), (Room(s) - 1) \div 3) IN
         [s |-> Add(s, <<91>> \o Triples(SubSeq(bs, 1, k))), r |-> 0]
=============================================================================
