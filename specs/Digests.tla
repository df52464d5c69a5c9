------------------------------- MODULE Digests ------------------------------
(* SHA-1 and RIPEMD-160 as published: the message is padded to whole 64-byte  *)
(* blocks, which are taken into the chaining value one after another.  Feeding *)
(* is a state machine: what has been fed so far is only the bytes, however     *)
(* they were split.                                                            *)
EXTENDS Words, SequencesExt

Start == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>
Zeros(n) == [k \in 1 .. n |-> 0]
(* one bit, zeros up to eight bytes short of a block, the length in bits *)
Fill(b) == <<128>> \o Zeros((119 - (Len(b) % 64)) % 64)
Bits(b) == <<0, 0, Len(b) \div 8192, (Len(b) * 8) % 65536>>
Blocks(p) == [k \in 1 .. (Len(p) \div 64) |-> SubSeq(p, (64 * (k - 1)) + 1, 64 * k)]
Sum5(a, b) == <<Add2(a[1], b[1]), Add2(a[2], b[2]), Add2(a[3], b[3]), Add2(a[4], b[4]), Add2(a[5], b[5])>>

(* --- SHA-1 --- *)
ShaK == <<<<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<51810, 49622>>>>
ShaF(r, x, y, z) == CASE r = 1 -> Or2(And2(x, y), And2(Not2(x), z))
                      [] r = 3 -> Or2(And2(x, y), Or2(And2(x, z), And2(y, z)))
                      [] OTHER -> Xor2(x, Xor2(y, z))
Schedule(m) == FoldLeft(LAMBDA w, t : Append(w, Rol2(Xor2(Xor2(w[t - 3], w[t - 8]), Xor2(w[t - 14], w[t - 16])), 1)),
                        [k \in 1 .. 16 |-> Be2(m, (4 * (k - 1)) + 1)], [k \in 1 .. 64 |-> k + 16])
ShaBlock(h, m) ==
    LET w == Schedule(m)
        step(s, t) == LET r == ((t - 1) \div 20) + 1 IN
            <<Add2(Add2(Add2(Rol2(s[1], 5), ShaF(r, s[2], s[3], s[4])), Add2(s[5], w[t])), ShaK[r]), s[1], Rol2(s[2], 30), s[3], s[4]>>
    IN Sum5(h, FoldLeft(step, h, [k \in 1 .. 80 |-> k]))
Flat(h, B(_)) == B(h[1]) \o B(h[2]) \o B(h[3]) \o B(h[4]) \o B(h[5])
Sha1(b) == Flat(FoldLeft(ShaBlock, Start, Blocks(b \o Fill(b) \o BeBytes(Bits(b)))), BeBytes)

(* --- RIPEMD-160 --- *)
RmdR == <<<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>,
          <<7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8>>,
          <<3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12>>,
          <<1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2>>,
          <<4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13>>>>
RmdRR == <<<<5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12>>,
          <<6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2>>,
          <<15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13>>,
          <<8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14>>,
          <<12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11>>>>
RmdS == <<<<11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8>>,
          <<7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12>>,
          <<11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5>>,
          <<11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12>>,
          <<9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6>>>>
RmdSS == <<<<8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6>>,
          <<9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11>>,
          <<9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5>>,
          <<15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8>>,
          <<8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11>>>>
RmdK == <<<<0, 0>>, <<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<43347, 64846>>>>
RmdKK == <<<<20642, 35814>>, <<23629, 53540>>, <<28016, 16115>>, <<31341, 30441>>, <<0, 0>>>>
RmdF(j, x, y, z) == CASE j = 1 -> Xor2(x, Xor2(y, z))
                      [] j = 2 -> Or2(And2(x, y), And2(Not2(x), z))
                      [] j = 3 -> Xor2(Or2(x, Not2(y)), z)
                      [] j = 4 -> Or2(And2(x, z), And2(y, Not2(z)))
                      [] j = 5 -> Xor2(x, Or2(y, Not2(z)))
Line(x, h, F(_), R, S, K) ==
    LET step(s, t) == LET j == (t \div 16) + 1
                          q == (t % 16) + 1 IN
            <<s[5], Add2(Rol2(Add2(Add2(s[1], RmdF(F(j), s[2], s[3], s[4])), Add2(x[R[j][q] + 1], K[j])), S[j][q]), s[5]), s[2], Rol2(s[3], 10), s[4]>>
    IN FoldLeft(step, h, [k \in 1 .. 80 |-> k - 1])
RmdBlock(h, m) ==
    LET x == [k \in 1 .. 16 |-> Le2(m, (4 * (k - 1)) + 1)]
        l == Line(x, h, LAMBDA j : j, RmdR, RmdS, RmdK)
        r == Line(x, h, LAMBDA j : 6 - j, RmdRR, RmdSS, RmdKK)
        T(a, b, c) == Add2(Add2(h[a], l[b]), r[c])
    IN <<T(2, 3, 4), T(3, 4, 5), T(4, 5, 1), T(5, 1, 2), T(1, 2, 3)>>
Ripemd160(b) == Flat(FoldLeft(RmdBlock, Start, Blocks(b \o Fill(b) \o LeBytes(Bits(b)))), LeBytes)

(* Digests of n zero bytes, n beyond what is computed here, from an          *)
(* independent implementation of the published algorithms.                    *)
BigZeros == [sha |-> <<<<142, 154, 255, 38, 155, 1, 0, 218, 148, 224, 80, 21, 36, 62, 10, 101, 193, 57, 151, 82>>, <<194, 163, 78, 67, 78, 188, 14, 33, 209, 13, 68, 194, 199, 120, 178, 220, 99, 28, 22, 219>>>>,
             rmd |-> <<<<63, 116, 166, 44, 130, 132, 93, 248, 87, 95, 42, 66, 95, 110, 89, 175, 28, 124, 220, 17>>, <<80, 141, 57, 1, 148, 71, 251, 63, 90, 193, 199, 0, 209, 181, 55, 51, 13, 49, 251, 68>>>>]

Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hexed(b) == <<48, 120>> \o [k \in 1 .. (2 * Len(b)) |-> Digit(IF k % 2 = 1 THEN b[(k + 1) \div 2] \div 16 ELSE b[(k + 1) \div 2] % 16)]
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Order(a, b) == LET D == {k \in 1 .. Len(a) : a[k] # b[k]} IN
               IF D = {} THEN 0 ELSE LET k == CHOOSE j \in D : \A m \in D : j <= m IN Sign(a[k] - b[k])
=============================================================================
