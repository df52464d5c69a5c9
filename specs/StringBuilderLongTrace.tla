----------------------- MODULE StringBuilderLongTrace -----------------------
(* A growing builder whose text comes near 2^32 characters.  Lengths are      *)
(* pairs <<high, low>> of 16-bit halves.  A text of at most 2^32 - 2          *)
(* characters is held whole; an append that would go beyond is refused, and   *)
(* leaves a terminated prefix of the ideal text that is no shorter than       *)
(* before.  The driver compares the characters themselves (ok).               *)
EXTENDS Integers, Sequences, TraceUtil
VARIABLES n, i

Plus(a, b) == LET lo == a[2] + b[2] IN <<a[1] + b[1] + lo \div 65536, lo % 65536>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Limit == <<65535, 65534>>

Init == n = <<0, 0>> /\ i = 1
Step(e) ==
    IF e.o = "init" THEN n' = <<0, 0>>
    ELSE LET total == Plus(n, e.a)
             fits == Leq(total, Limit) IN
         /\ Same(e.o \o " result", i, IF fits THEN 1 ELSE 0, e.r)
         /\ Holds(e.o \o " length", i, IF fits THEN e.n = total ELSE Leq(n, e.n) /\ Leq(e.n, total) /\ Leq(e.n, Limit))
         /\ Same(e.o \o " text", i, 1, e.ok)
         /\ Same(e.o \o " terminated", i, 1, e.z)
         /\ n' = e.n
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
