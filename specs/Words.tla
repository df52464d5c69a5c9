------------------------------- MODULE Words -------------------------------
(* Arithmetic of 32-bit words <<high, low>> and 64-bit words                  *)
(* <<w1, w2, w3, w4>>, sixteen bits each, most significant first; TLC         *)
(* integers have 31 bits.                                                     *)
EXTENDS Integers, Sequences, Bitwise

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Pow(n) == P2[n + 1]

(* --- 32 bits --- *)
Xor2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
And2(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Or2(a, b) == <<a[1] | b[1], a[2] | b[2]>>
Not2(a) == <<65535 - a[1], 65535 - a[2]>>
Add2(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div 65536)) % 65536, l % 65536>>
(* 0 < n < 32 *)
Shl2(a, n) == IF n >= 16 THEN <<(a[2] * Pow(n - 16)) % 65536, 0>>
              ELSE <<((a[1] * Pow(n)) % 65536) + (a[2] \div Pow(16 - n)), (a[2] * Pow(n)) % 65536>>
Shr2(a, n) == IF n >= 16 THEN <<0, a[1] \div Pow(n - 16)>>
              ELSE <<a[1] \div Pow(n), ((a[1] * Pow(16 - n)) % 65536) + (a[2] \div Pow(n))>>
Rol2(a, n) == LET h == IF n >= 16 THEN a[2] ELSE a[1]
                  l == IF n >= 16 THEN a[1] ELSE a[2]
                  m == n % 16 IN
              IF m = 0 THEN <<h, l>>
              ELSE <<((h * Pow(m)) % 65536) + (l \div Pow(16 - m)), ((l * Pow(m)) % 65536) + (h \div Pow(16 - m))>>

(* --- 64 bits --- *)
Xor4(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
Add4(a, b) == LET s4 == a[4] + b[4]
                  s3 == a[3] + b[3] + (s4 \div 65536)
                  s2 == a[2] + b[2] + (s3 \div 65536)
                  s1 == a[1] + b[1] + (s2 \div 65536) IN
              <<s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536>>
(* whole limbs first, then 0 <= m < 16 bits *)
Limb(a, k) == IF k \in 1 .. 4 THEN a[k] ELSE 0
Shl4(a, n) == LET q == n \div 16
                  m == n % 16
                  Part(k) == IF m = 0 THEN Limb(a, k + q)
                             ELSE ((Limb(a, k + q) * Pow(m)) % 65536) + (Limb(a, k + q + 1) \div Pow(16 - m)) IN
              <<Part(1), Part(2), Part(3), Part(4)>>
Shr4(a, n) == LET q == n \div 16
                  m == n % 16
                  Part(k) == IF m = 0 THEN Limb(a, k - q)
                             ELSE (Limb(a, k - q) \div Pow(m)) + ((Limb(a, k - q - 1) * Pow(16 - m)) % 65536) IN
              <<Part(1), Part(2), Part(3), Part(4)>>
Rol4(a, n) == Xor4(Shl4(a, n), Shr4(a, 64 - n))

(* bytes, least significant first *)
Low8(a) == <<a[4] % 256, a[4] \div 256, a[3] % 256, a[3] \div 256, a[2] % 256, a[2] \div 256, a[1] % 256, a[1] \div 256>>

(* product modulo 2^64 *)
Mul4(a, b) == LET x == Low8(a)
    y == Low8(b)
    c0 == x[1] * y[1]
    c1 == x[1] * y[2] + x[2] * y[1] + (c0 \div 256)
    c2 == x[1] * y[3] + x[2] * y[2] + x[3] * y[1] + (c1 \div 256)
    c3 == x[1] * y[4] + x[2] * y[3] + x[3] * y[2] + x[4] * y[1] + (c2 \div 256)
    c4 == x[1] * y[5] + x[2] * y[4] + x[3] * y[3] + x[4] * y[2] + x[5] * y[1] + (c3 \div 256)
    c5 == x[1] * y[6] + x[2] * y[5] + x[3] * y[4] + x[4] * y[3] + x[5] * y[2] + x[6] * y[1] + (c4 \div 256)
    c6 == x[1] * y[7] + x[2] * y[6] + x[3] * y[5] + x[4] * y[4] + x[5] * y[3] + x[6] * y[2] + x[7] * y[1] + (c5 \div 256)
    c7 == x[1] * y[8] + x[2] * y[7] + x[3] * y[6] + x[4] * y[5] + x[5] * y[4] + x[6] * y[3] + x[7] * y[2] + x[8] * y[1] + (c6 \div 256)
    IN <<((c7 % 256) * 256) + (c6 % 256), ((c5 % 256) * 256) + (c4 % 256), ((c3 % 256) * 256) + (c2 % 256), ((c1 % 256) * 256) + (c0 % 256)>>

(* the whole product, eight limbs *)
Wide4(a, b) == LET x == Low8(a)
    y == Low8(b)
    c0 == x[1] * y[1]
    c1 == x[1] * y[2] + x[2] * y[1] + (c0 \div 256)
    c2 == x[1] * y[3] + x[2] * y[2] + x[3] * y[1] + (c1 \div 256)
    c3 == x[1] * y[4] + x[2] * y[3] + x[3] * y[2] + x[4] * y[1] + (c2 \div 256)
    c4 == x[1] * y[5] + x[2] * y[4] + x[3] * y[3] + x[4] * y[2] + x[5] * y[1] + (c3 \div 256)
    c5 == x[1] * y[6] + x[2] * y[5] + x[3] * y[4] + x[4] * y[3] + x[5] * y[2] + x[6] * y[1] + (c4 \div 256)
    c6 == x[1] * y[7] + x[2] * y[6] + x[3] * y[5] + x[4] * y[4] + x[5] * y[3] + x[6] * y[2] + x[7] * y[1] + (c5 \div 256)
    c7 == x[1] * y[8] + x[2] * y[7] + x[3] * y[6] + x[4] * y[5] + x[5] * y[4] + x[6] * y[3] + x[7] * y[2] + x[8] * y[1] + (c6 \div 256)
    c8 == x[2] * y[8] + x[3] * y[7] + x[4] * y[6] + x[5] * y[5] + x[6] * y[4] + x[7] * y[3] + x[8] * y[2] + (c7 \div 256)
    c9 == x[3] * y[8] + x[4] * y[7] + x[5] * y[6] + x[6] * y[5] + x[7] * y[4] + x[8] * y[3] + (c8 \div 256)
    c10 == x[4] * y[8] + x[5] * y[7] + x[6] * y[6] + x[7] * y[5] + x[8] * y[4] + (c9 \div 256)
    c11 == x[5] * y[8] + x[6] * y[7] + x[7] * y[6] + x[8] * y[5] + (c10 \div 256)
    c12 == x[6] * y[8] + x[7] * y[7] + x[8] * y[6] + (c11 \div 256)
    c13 == x[7] * y[8] + x[8] * y[7] + (c12 \div 256)
    c14 == x[8] * y[8] + (c13 \div 256)
    c15 == 0 + (c14 \div 256)
    IN <<((c15 % 256) * 256) + (c14 % 256), ((c13 % 256) * 256) + (c12 % 256), ((c11 % 256) * 256) + (c10 % 256), ((c9 % 256) * 256) + (c8 % 256), ((c7 % 256) * 256) + (c6 % 256), ((c5 % 256) * 256) + (c4 % 256), ((c3 % 256) * 256) + (c2 % 256), ((c1 % 256) * 256) + (c0 % 256)>>

Mul2(a, b) == LET p == Mul4(<<0, 0, a[1], a[2]>>, <<0, 0, b[1], b[2]>>) IN <<p[3], p[4]>>

(* little-endian words in a byte string: the one starting at position p *)
Le2(b, p) == <<(b[p + 3] * 256) + b[p + 2], (b[p + 1] * 256) + b[p]>>
Le4(b, p) == <<(b[p + 7] * 256) + b[p + 6], (b[p + 5] * 256) + b[p + 4], (b[p + 3] * 256) + b[p + 2], (b[p + 1] * 256) + b[p]>>
Be2(b, p) == <<(b[p] * 256) + b[p + 1], (b[p + 2] * 256) + b[p + 3]>>
LeBytes(a) == LET n == Len(a) IN [k \in 1 .. (2 * n) |-> LET l == a[n - ((k - 1) \div 2)] IN IF k % 2 = 1 THEN l % 256 ELSE l \div 256]
BeBytes(a) == [k \in 1 .. (2 * Len(a)) |-> LET l == a[(k + 1) \div 2] IN IF k % 2 = 1 THEN l \div 256 ELSE l % 256]
=============================================================================
