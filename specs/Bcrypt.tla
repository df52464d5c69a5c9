------------------------------- MODULE Bcrypt -------------------------------
(* The password hash: Blowfish with an expensive key schedule, applied 64     *)
(* times to a fixed text (Provos and Mazieres), written in its usual text     *)
(* form.  Passwords and texts are sequences of character codes.               *)
EXTENDS Words, SequencesExt, PiWords

Seq1(n) == [k \in 1 .. n |-> k]

(* --- Blowfish --- *)
F(S, x) == Add2(Xor2(Add2(S[(x[1] \div 256) + 1], S[(x[1] % 256) + 257]), S[(x[2] \div 256) + 513]), S[(x[2] % 256) + 769])
S16 == Seq1(16)
Encipher(P, S, l, r) ==
    LET step(t, k) == LET x == Xor2(t[1], P[k]) IN <<Xor2(t[2], F(S, x)), x>>
        h == FoldLeft(step, <<l, r>>, S16)
    IN <<Xor2(h[2], P[18]), Xor2(h[1], P[17])>>

(* --- key schedule --- *)
(* subkeys, then boxes, are replaced two words at a time by the running       *)
(* encipherment, into which the halves of the salt are mixed in turn          *)
Pass(c, salt, n, set(_, _, _)) == FoldLeft(LAMBDA d, k :
        LET q == IF d.k % 2 = 0 THEN 0 ELSE 2
            e == Encipher(d.P, d.S, Xor2(d.l, salt[q + 1]), Xor2(d.r, salt[q + 2]))
        IN set([d EXCEPT !.l = e[1], !.r = e[2], !.k = d.k + 1], k, e), c, Seq1(n))
Expand(P, S, salt) ==
    LET c0 == [P |-> P, S |-> S, l |-> <<0, 0>>, r |-> <<0, 0>>, k |-> 0]
        c1 == Pass(c0, salt, 9, LAMBDA d, k, e : [d EXCEPT !.P[(2 * k) - 1] = e[1], !.P[2 * k] = e[2]])
    IN Pass(c1, salt, 512, LAMBDA d, k, e : [d EXCEPT !.S[(2 * k) - 1] = e[1], !.S[2 * k] = e[2]])

(* the password and its terminator, over and over: 18 words *)
Cycle(p) == LET z == Append(p, 0)
                at(k) == z[((k - 1) % Len(z)) + 1] IN
            [j \in 1 .. 18 |-> <<(at((4 * j) - 3) * 256) + at((4 * j) - 2), (at((4 * j) - 1) * 256) + at(4 * j)>>]
(* the same with characters taken as signed: those from 128 up overwrite      *)
(* what precedes them in their word                                           *)
SignCycle(p) == LET z == Append(p, 0)
                    at(k) == z[((k - 1) % Len(z)) + 1]
                    up(w, c) == LET s == <<((w[1] % 256) * 256) + (w[2] \div 256), ((w[2] % 256) * 256)>> IN
                                IF c >= 128 THEN <<65535, 65280 + c>> ELSE <<s[1], s[2] + c>> IN
                [j \in 1 .. 18 |-> up(up(up(up(<<0, 0>>, at((4 * j) - 3)), at((4 * j) - 2)), at((4 * j) - 1)), at(4 * j))]
Overwrites(p) == LET z == Append(p, 0) IN \E k \in 1 .. 72 : k % 4 # 1 /\ z[((k - 1) % Len(z)) + 1] >= 128
(* variant "a" changes one bit where the two readings cannot be told apart    *)
Marked(v, p) == v = 97 /\ Overwrites(p) /\ Cycle(p) = SignCycle(p)

XorP(P, w) == [k \in 1 .. 18 |-> Xor2(P[k], w[k])]
Zero == <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>
Setup(v, cost, salt, p) ==
    LET key == IF v = 120 THEN SignCycle(p) ELSE Cycle(p)
        P0 == XorP(PiP, key)
        P1 == IF Marked(v, p) THEN [P0 EXCEPT ![1] = Xor2(P0[1], <<1, 0>>)] ELSE P0
        c0 == Expand(P1, PiS, salt)
        rnd(c, k) == LET d == Expand(XorP(c.P, key), c.S, Zero) IN Expand(XorP(d.P, [j \in 1 .. 18 |-> salt[((j - 1) % 4) + 1]]), d.S, Zero)
    IN FoldLeft(rnd, c0, Seq1(2^cost))

(* "OrpheanBeholderScryDoubt" *)
Magic == <<79, 114, 112, 104, 101, 97, 110, 66, 101, 104, 111, 108, 100, 101, 114, 83, 99, 114, 121, 68, 111, 117, 98, 116>>
Hash24(v, cost, salt, p) ==
    LET c == Setup(v, cost, salt, p)
        pair(j) == FoldLeft(LAMBDA t, k : Encipher(c.P, c.S, t[1], t[2]), <<Be2(Magic, (8 * j) + 1), Be2(Magic, (8 * j) + 5)>>, Seq1(64))
        out(j) == LET t == pair(j) IN BeBytes(t[1]) \o BeBytes(t[2])
    IN out(0) \o out(1) \o out(2)

(* --- text form --- *)
Letters == <<46, 47>> \o [k \in 1 .. 26 |-> 64 + k] \o [k \in 1 .. 26 |-> 96 + k] \o [k \in 1 .. 10 |-> 47 + k]
Code(c) == IF c = 46 THEN 0 ELSE IF c = 47 THEN 1 ELSE IF c \in 65 .. 90 THEN c - 63 ELSE IF c \in 97 .. 122 THEN c - 69
           ELSE IF c \in 48 .. 57 THEN c + 6 ELSE 64
ByteAt(b, k) == IF k <= Len(b) THEN b[k] ELSE 0
Spelt(b) == [q \in 1 .. (((Len(b) * 8) + 5) \div 6) |->
    LET p == (3 * ((q - 1) \div 4)) + 1
        g == (ByteAt(b, p) * 65536) + (ByteAt(b, p + 1) * 256) + ByteAt(b, p + 2)
    IN Letters[((g \div <<262144, 4096, 64, 1>>[((q - 1) % 4) + 1]) % 64) + 1]]
(* 16 bytes from 22 letters; the last letter's lowest four bits count for nothing *)
Unspelt(t) == [k \in 1 .. 16 |->
    LET p == (4 * ((k - 1) \div 3)) + 1
        at(j) == IF j <= 22 THEN Code(t[j]) ELSE 0
        g == (at(p) * 262144) + (at(p + 1) * 4096) + (at(p + 2) * 64) + at(p + 3)
    IN (g \div <<65536, 256, 1>>[((k - 1) % 3) + 1]) % 256]

(* "$2" variant "$" two digits "$" and at least 22 letters *)
Setting(s) ==
    /\ Len(s) >= 29
    /\ s[1] = 36 /\ s[2] = 50 /\ s[3] \in {97, 120, 121} /\ s[4] = 36 /\ s[7] = 36
    /\ s[5] \in 48 .. 51 /\ s[6] \in 48 .. 57
    /\ LET cost == ((s[5] - 48) * 10) + (s[6] - 48) IN cost \in 4 .. 31
    /\ \A k \in 8 .. 29 : Code(s[k]) < 64
Cost(s) == ((s[5] - 48) * 10) + (s[6] - 48)
SaltOf(s) == Unspelt(SubSeq(s, 8, 29))
SaltWords(s) == LET b == SaltOf(s) IN <<Be2(b, 1), Be2(b, 5), Be2(b, 9), Be2(b, 13)>>
(* the setting with its last letter in its only proper spelling *)
Proper(s) == SubSeq(s, 1, 7) \o Spelt(SaltOf(s))
HashText(p, s) == Proper(s) \o Spelt(SubSeq(Hash24(s[3], Cost(s), SaltWords(s), p), 1, 23))
=============================================================================
