------------------------------- MODULE Base64 -------------------------------
(* Padded base-64 text (characters as codes).                                 *)
EXTENDS Integers, Sequences

Alphabet == [k \in 0 .. 63 |-> IF k < 26 THEN 65 + k ELSE IF k < 52 THEN 71 + k ELSE IF k < 62 THEN k - 4
                               ELSE IF k = 62 THEN 43 ELSE 47]
Pad == 61
IsLetter(c) == c \in (65 .. 90) \cup (97 .. 122) \cup (48 .. 57) \cup {43, 47}
ValueOf(c) == IF c \in 65 .. 90 THEN c - 65 ELSE IF c \in 97 .. 122 THEN c - 71 ELSE IF c \in 48 .. 57 THEN c + 4
              ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 0

TextLen(n) == 4 * ((n + 2) \div 3)
Byte(b, k) == IF k <= Len(b) THEN b[k] ELSE 0
(* the k-th six bits of a group of three bytes starting at p *)
Six(b, p, k) == LET g == (Byte(b, p) * 65536) + (Byte(b, p + 1) * 256) + Byte(b, p + 2) IN
                (g \div <<262144, 4096, 64, 1>>[k]) % 64
Encode(b) == [q \in 1 .. TextLen(Len(b)) |->
    LET p == (3 * ((q - 1) \div 4)) + 1
        k == ((q - 1) % 4) + 1 IN
    (* the last group has one character more than it has bytes *)
    IF k > (Len(b) - p) + 2 THEN Pad ELSE Alphabet[Six(b, p, k)]]

WellFormed(t) == LET n == Len(t) IN
    /\ n > 0
    /\ n % 4 = 0
    /\ \A k \in 1 .. (n - 2) : IsLetter(t[k])
    /\ \/ t[n - 1] = Pad /\ t[n] = Pad
       \/ IsLetter(t[n - 1]) /\ (IsLetter(t[n]) \/ t[n] = Pad)

Padding(t) == LET n == Len(t) IN IF n = 0 THEN 0 ELSE (IF t[n] = Pad THEN 1 ELSE 0) + (IF t[n - 1] = Pad THEN 1 ELSE 0)
Count(t) == (3 * (Len(t) \div 4)) - Padding(t)
Decode(t) == [k \in 1 .. Count(t) |->
    LET p == (4 * ((k - 1) \div 3)) + 1
        g == (ValueOf(t[p]) * 262144) + (ValueOf(t[p + 1]) * 4096) + (ValueOf(t[p + 2]) * 64) + ValueOf(t[p + 3]) IN
    (g \div <<65536, 256, 1>>[((k - 1) % 3) + 1]) % 256]
=============================================================================
