----------------------------- MODULE Certificate ----------------------------
(* Which names a certificate is good for.  Names and hosts are sequences of   *)
(* character codes; a certificate is [dns, cn, ip], each a sequence of names  *)
(* (addresses: 4 or 16 bytes).  A name in a certificate may contain zeros, a  *)
(* host name never does.                                                      *)
EXTENDS Integers, Sequences

Lower(c) == IF c \in 65 .. 90 THEN c + 32 ELSE c
SameName(a, b) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) : Lower(a[k]) = Lower(b[k])

Dot == 46
HasDot(h) == \E k \in 1 .. Len(h) : h[k] = Dot
FirstDot(h) == CHOOSE k \in 1 .. Len(h) : h[k] = Dot /\ \A j \in 1 .. (k - 1) : h[j] # Dot
AfterLabel(h) == SubSeq(h, FirstDot(h) + 1, Len(h))
IsWild(n) == Len(n) >= 2 /\ n[1] = 42 /\ n[2] = Dot
Wild(n, h) == IsWild(n) /\ HasDot(h) /\ SameName(SubSeq(n, 3, Len(n)), AfterLabel(h))

Good(n, h, wild) == SameName(n, h) \/ (wild /\ Wild(n, h))
MatchName(c, h, wild) == \/ \E k \in 1 .. Len(c.dns) : Good(c.dns[k], h, wild)
                         \/ \E k \in 1 .. Len(c.cn) : Good(c.cn[k], h, wild)

(* --- addresses --- *)
RECURSIVE Fields(_, _)
(* the parts of t between separators *)
Fields(t, s) == IF ~ \E k \in 1 .. Len(t) : t[k] = s THEN <<t>>
                ELSE LET k == CHOOSE j \in 1 .. Len(t) : t[j] = s /\ \A m \in 1 .. (j - 1) : t[m] # s IN
                     <<SubSeq(t, 1, k - 1)>> \o Fields(SubSeq(t, k + 1, Len(t)), s)
IsDigit(c) == c \in 48 .. 57
IsHex(c) == IsDigit(c) \/ Lower(c) \in 97 .. 102
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE Lower(c) - 87
RECURSIVE Num(_, _)
Num(f, base) == IF f = <<>> THEN 0 ELSE (Num(SubSeq(f, 1, Len(f) - 1), base) * base) + HexVal(f[Len(f)])
IsDec(f) == /\ Len(f) \in 1 .. 3 /\ (\A k \in 1 .. Len(f) : IsDigit(f[k])) /\ Num(f, 10) <= 255
            /\ (Len(f) > 1 => f[1] # 48)
IsGroup(f) == Len(f) \in 1 .. 4 /\ \A k \in 1 .. Len(f) : IsHex(f[k])
None == <<>>

Ip4(t) == LET f == Fields(t, Dot) IN
          IF Len(f) = 4 /\ \A k \in 1 .. 4 : IsDec(f[k]) THEN [k \in 1 .. 4 |-> Num(f[k], 10)] ELSE None

(* bytes of groups separated by colons; the last may be a dotted address *)
Colon == 58
RECURSIVE GroupBytes(_)
GroupBytes(f) == IF f = <<>> THEN <<>> ELSE LET n == Num(f[1], 16) IN <<n \div 256, n % 256>> \o GroupBytes(Tail(f))
PartOk(t, last) == t = <<>> \/ LET f == Fields(t, Colon)
                                   n == Len(f) IN
                   /\ \A k \in 1 .. (n - 1) : IsGroup(f[k])
                   /\ IsGroup(f[n]) \/ (last /\ Ip4(f[n]) # None)
PartBytes(t) == IF t = <<>> THEN <<>> ELSE
                LET f == Fields(t, Colon)
                    n == Len(f) IN
                GroupBytes(SubSeq(f, 1, n - 1)) \o (IF IsGroup(f[n]) THEN GroupBytes(<<f[n]>>) ELSE Ip4(f[n]))
Gaps(t) == {k \in 1 .. (Len(t) - 1) : t[k] = Colon /\ t[k + 1] = Colon}
Ip6(t) == IF Gaps(t) = {}
          THEN IF t # <<>> /\ PartOk(t, TRUE) /\ Len(PartBytes(t)) = 16 THEN PartBytes(t) ELSE None
          ELSE LET k == CHOOSE j \in Gaps(t) : \A m \in Gaps(t) : j <= m
                   a == SubSeq(t, 1, k - 1)
                   b == SubSeq(t, k + 2, Len(t)) IN
               IF PartOk(a, FALSE) /\ PartOk(b, TRUE)
               THEN LET x == PartBytes(a)
                        y == PartBytes(b) IN
                    IF Len(x) + Len(y) <= 14 THEN x \o [m \in 1 .. (16 - Len(x) - Len(y)) |-> 0] \o y ELSE None
               ELSE None

MatchSan(c, h) == \/ \E k \in 1 .. Len(c.dns) : c.dns[k] = h
                  \/ \E k \in 1 .. Len(c.ip) : \/ Len(c.ip[k]) = 4 /\ Ip4(h) = c.ip[k]
                                               \/ Len(c.ip[k]) = 16 /\ Ip6(h) = c.ip[k]
=============================================================================
