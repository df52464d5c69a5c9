------------------------------ MODULE HexText ------------------------------
(* Bytes as hexadecimal text and back. Text is a sequence of character codes. *)
EXTENDS Integers, Sequences, Wide

RECURSIVE Hex(_)
Hex(bs) == IF bs = <<>> THEN <<>>
           ELSE <<HexDigitUpper(bs[1] \div 16), HexDigitUpper(bs[1] % 16)>> \o Hex(Tail(bs))
Prefix == <<48, 120>>

(* Printing into a target of room characters, terminator included: success    *)
(* and the text left behind; a target without room holds no text at all.      *)
Print(bs, room, pre) ==
    LET t == (IF pre THEN Prefix ELSE <<>>) \o Hex(bs) IN
    IF Len(t) + 1 <= room THEN [ok |-> 1, text |-> t] ELSE [ok |-> 0, text |-> <<>>]

Digit(c) == IF c >= 48 /\ c <= 57 THEN c - 48
            ELSE IF c >= 65 /\ c <= 70 THEN c - 55
            ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1

(* Reading text (an optional prefix, then pairs of digits) into room bytes.   *)
Parse(t, room) ==
    LET d == IF Len(t) >= 2 /\ t[1] = 48 /\ t[2] = 120 THEN SubSeq(t, 3, Len(t)) ELSE t
        n == Len(d) \div 2 IN
    IF Len(d) % 2 # 0 \/ n > room \/ \E j \in 1..Len(d) : Digit(d[j]) = -1 THEN [r |-> -1, bytes |-> <<>>]
    ELSE [r |-> n, bytes |-> [j \in 1..n |-> Digit(d[2 * j - 1]) * 16 + Digit(d[2 * j])]]
=============================================================================
