------------------------------- MODULE Hashes ------------------------------
(* The published definitions of the hash functions, over byte strings.        *)
EXTENDS Words, SequencesExt

(* FNV-1a *)
Fnv32(b) == FoldLeft(LAMBDA h, x : Mul2(Xor2(h, <<0, x>>), <<256, 403>>), <<33052, 40389>>, b)
Fnv64(b) == FoldLeft(LAMBDA h, x : Mul4(Xor4(h, <<0, 0, 0, x>>), <<0, 256, 0, 435>>), <<52210, 40164, 33826, 8997>>, b)

(* Jenkins, one byte at a time *)
Jen32(b) == LET h == FoldLeft(LAMBDA g, x : LET u == Add2(g, <<0, x>>)
                                               v == Add2(u, Shl2(u, 10)) IN Xor2(v, Shr2(v, 6)), <<0, 0>>, b)
                i == Add2(h, Shl2(h, 3))
                j == Xor2(i, Shr2(i, 11)) IN Add2(j, Shl2(j, 15))
Jen64(b) == LET h == FoldLeft(LAMBDA g, x : LET u == Add4(g, <<0, 0, 0, x>>)
                                               v == Add4(u, Shl4(u, 10)) IN Xor4(v, Shr4(v, 6)), <<0, 0, 0, 0>>, b)
                i == Add4(h, Shl4(h, 3))
                j == Xor4(i, Shr4(i, 11)) IN Add4(j, Shl4(j, 15))

(* multiplicative hash of a 64-bit word: the upper half of the low product *)
Ptr32(w) == LET p == Mul4(w, <<57889, 63868, 12521, 19997>>) IN <<p[1], p[2]>>

(* MurmurHash3 x64 128, seed zero *)
C1 == <<34755, 31633, 4418, 21461>>
C2 == <<19701, 44355, 10053, 37759>>
Mix1(k) == Mul4(Rol4(Mul4(k, C1), 31), C2)
Mix2(k) == Mul4(Rol4(Mul4(k, C2), 33), C1)
Five(h, c) == Add4(Mul4(h, <<0, 0, 0, 5>>), c)
Fin(k) == LET a == Xor4(k, Shr4(k, 33))
              c == Mul4(a, <<65361, 45015, 60757, 36045>>)
              d == Xor4(c, Shr4(c, 33))
              e == Mul4(d, <<50382, 47614, 6789, 60499>>) IN Xor4(e, Shr4(e, 33))
Padded(b, n) == [k \in 1 .. n |-> IF k <= Len(b) THEN b[k] ELSE 0]
Murmur(b) ==
    LET n == Len(b) \div 16
        body == FoldLeft(LAMBDA h, k :
                    LET k1 == Le4(b, (16 * (k - 1)) + 1)
                        k2 == Le4(b, (16 * (k - 1)) + 9)
                        h1 == Five(Add4(Rol4(Xor4(h[1], Mix1(k1)), 27), h[2]), <<0, 0, 21212, 59177>>)
                        h2 == Five(Add4(Rol4(Xor4(h[2], Mix2(k2)), 31), h1), <<0, 0, 14409, 23221>>)
                    IN <<h1, h2>>, <<<<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>, [k \in 1 .. n |-> k])
        t == Padded(SubSeq(b, (16 * n) + 1, Len(b)), 16)
        m == Len(b) % 16
        a2 == IF m > 8 THEN Xor4(body[2], Mix2(Le4(t, 9))) ELSE body[2]
        a1 == IF m > 0 THEN Xor4(body[1], Mix1(Le4(t, 1))) ELSE body[1]
        len == <<0, 0, Len(b) \div 65536, Len(b) % 65536>>
        b1 == Add4(Xor4(a1, len), Xor4(a2, len))
        b2 == Add4(Xor4(a2, len), b1)
        c1 == Add4(Fin(b1), Fin(b2))
        c2 == Add4(Fin(b2), c1)
    IN <<c1, c2>>

(* wyhash, final version 3, seed as chosen by the library *)
S0 == <<41078, 7524, 30909, 25647>>
S1 == <<59139, 32465, 41140, 10459>>
S2 == <<36540, 27376, 40072, 50915>>
S3 == <<22681, 26060, 30007, 19651>>
Seed == Xor4(<<2, 40891, 5324, 34927>>, S0)
Wymix(a, b) == LET p == Wide4(a, b) IN Xor4(<<p[1], p[2], p[3], p[4]>>, <<p[5], p[6], p[7], p[8]>>)
Pair4(h, l) == <<h[1], h[2], l[1], l[2]>>
RECURSIVE Wy48(_, _, _), Wy16(_, _, _)
(* [s, p]: seed and next position, while more than 48 (16) bytes are left *)
Wy48(b, p, s) == IF Len(b) - p + 1 > 48
    THEN Wy48(b, p + 48, <<Wymix(Xor4(Le4(b, p), S1), Xor4(Le4(b, p + 8), s[1])),
                           Wymix(Xor4(Le4(b, p + 16), S2), Xor4(Le4(b, p + 24), s[2])),
                           Wymix(Xor4(Le4(b, p + 32), S3), Xor4(Le4(b, p + 40), s[3]))>>)
    ELSE [p |-> p, s |-> s]
Wy16(b, p, s) == IF Len(b) - p + 1 > 16
    THEN Wy16(b, p + 16, Wymix(Xor4(Le4(b, p), S1), Xor4(Le4(b, p + 8), s)))
    ELSE s
Wy64(b) ==
    LET n == Len(b)
        len == <<0, 0, n \div 65536, n % 65536>>
        q == 4 * (n \div 8)
        last == Wy48(b, 1, <<Seed, Seed, Seed>>)
        r == CASE n = 0 -> <<<<0, 0, 0, 0>>, <<0, 0, 0, 0>>, Seed>>
               [] n \in 1 .. 3 -> <<<<0, 0, b[1], (b[(n \div 2) + 1] * 256) + b[n]>>, <<0, 0, 0, 0>>, Seed>>
               [] n \in 4 .. 16 -> <<Pair4(Le2(b, 1), Le2(b, 1 + q)), Pair4(Le2(b, n - 3), Le2(b, n - 3 - q)), Seed>>
               [] n > 16 -> <<Le4(b, n - 15), Le4(b, n - 7),
                              IF n > 48 THEN Wy16(b, last.p, Xor4(last.s[1], Xor4(last.s[2], last.s[3]))) ELSE Wy16(b, 1, Seed)>>
    IN Wymix(Xor4(S1, len), Wymix(Xor4(r[1], S1), Xor4(r[2], r[3])))
Wy32(b) == LET w == Wy64(b) IN <<w[3], w[4]>>
=============================================================================
