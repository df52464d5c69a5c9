------------------------------ MODULE Xorshift ------------------------------
(* The generator behind a random instance: xorshift128+ with shifts 23, 18, 5. *)
EXTENDS Words, SequencesExt

(* s = <<first seed, second seed>>; the next state and the number drawn *)
After(s) == LET x == Xor4(s[1], Shl4(s[1], 23)) IN
            <<s[2], Xor4(Xor4(x, s[2]), Xor4(Shr4(x, 18), Shr4(s[2], 5)))>>
Drawn(s) == LET t == After(s) IN Add4(t[1], t[2])

(* n bytes: as many numbers as they need, each one's low byte first *)
RECURSIVE Draw(_, _, _)
Draw(s, n, got) == IF n <= 0 THEN [s |-> s, b |-> got]
                   ELSE Draw(After(s), n - 8, got \o SubSeq(LeBytes(Drawn(s)), 1, IF n < 8 THEN n ELSE 8))

Alnum == (48 .. 57) \cup (65 .. 90) \cup (97 .. 122)
IsAlnum(c) == c \in Alnum
=============================================================================
