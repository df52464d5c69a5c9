------------------------------- MODULE Wide -------------------------------
(* 64-bit words as sequences of sixteen-bit limbs, most significant first     *)
(* (TLC integers have 32 bits), and text as sequences of character codes.     *)
EXTENDS Integers, Sequences

Base == 65536
Zero4 == <<0, 0, 0, 0>>

(* [q |-> limbs \div d, r |-> limbs % d] for 0 < d < 32768 *)
RECURSIVE DivSmall(_, _, _)
DivSmall(limbs, d, rem) ==
    IF limbs = <<>> THEN [q |-> <<>>, r |-> rem]
    ELSE LET cur == rem * Base + Head(limbs)
             rest == DivSmall(Tail(limbs), d, cur % d) IN
         [q |-> <<cur \div d>> \o rest.q, r |-> rest.r]

IsZero(limbs) == \A k \in 1 .. Len(limbs) : limbs[k] = 0

(* decimal digits (character codes) of an unsigned word *)
RECURSIVE DecDigits(_)
DecDigits(limbs) ==
    LET dv == DivSmall(limbs, 10, 0) IN
    IF IsZero(dv.q) THEN <<48 + dv.r>> ELSE Append(DecDigits(dv.q), 48 + dv.r)

Negative(limbs) == limbs[1] >= 32768

(* two's complement negation *)
RECURSIVE AddOne(_)
AddOne(limbs) ==
    IF limbs = <<>> THEN <<>>
    ELSE LET n == Len(limbs) IN
         IF limbs[n] = 65535 THEN Append(AddOne(SubSeq(limbs, 1, n - 1)), 0)
         ELSE [limbs EXCEPT ![n] = @ + 1]
Neg(limbs) == AddOne([k \in 1 .. Len(limbs) |-> 65535 - limbs[k]])

SignedDec(limbs) == IF Negative(limbs) THEN <<45>> \o DecDigits(Neg(limbs)) ELSE DecDigits(limbs)

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 97 + n - 10
HexDigitUpper(n) == IF n < 10 THEN 48 + n ELSE 65 + n - 10
=============================================================================
