----------------------------- MODULE ClockLaws -----------------------------
(* Laws of the clock arithmetic over boundary instants, waits and expiries,  *)
(* and the list of calls to replay on the real code.                         *)
EXTENDS Clock, TLC, Json

CONSTANT Fine
D == IF Fine THEN {0, 1, 499, 500, 998, 999} ELSE {0, 1, 500, 999}
Nanos == {Norm(<<a, b, c>>) : a \in {0, 1, 999}, b \in {0, 1, 999}, c \in D}
Secs == {EpochS, Add(EpochS, Norm(<<1>>)), Norm(<<999, 999, 699, 1>>), Norm(<<296, 967, 294, 4>>)}
Waits == {Norm(<<a, b>>) : a \in D, b \in {0, 1, 999}} \cup {Norm(<<647, 483, 147, 2>>), Norm(<<1, 483, 147, 2>>)}
Voids == {Zero, Norm(<<1>>), Norm(<<2>>), Never, Norm(<<999, 999, 437>>), Norm(<<0, 0, 438>>), Norm(<<1, 0, 438>>)}
Fs0 == {"getns", "getus", "getms", "abs", "secs", "cems", "cesec", "ce32"}
Fs1 == {"ens", "eus", "ems", "esec", "uns", "uus", "ums", "usec"}

VARIABLE c
Init == c \in [f : {"wait", "span"}, s : Secs, n : Nanos, x : Waits, y : {Zero}]
           \cup [f : {"after"}, s : Secs, n : Nanos, x : {Zero, Norm(<<7>>), Norm(<<0, 1>>)}, y : Nanos]
           \cup [f : Fs0, s : Secs, n : Nanos, x : {Zero}, y : {Zero}]
           \cup [f : Fs1, s : {EpochS}, n : {Zero}, y : {Zero},
                 x : Waits]
           \cup [f : {"ens", "eus", "ems", "esec", "uns"}, s : {EpochS}, n : {Zero}, y : {Zero},
                 x : {EpochNs, Add(EpochNs, Norm(<<1>>)), Sub(EpochNs, Norm(<<1>>))}]
           \cup [f : {"ttl"}, s : Secs, n : Nanos, x : Voids, y : {Zero}]
Next == FALSE /\ c' = c

Now == [s |-> c.s, n |-> c.n]
A == Answer(c.f, Now, c.x, c.y)
Valid == c.f \in {"wait", "after", "span"} =>
            A[2] = Low(A[2], 3) /\ Down(A[2], 3) = Zero
Exact == /\ c.f = "wait" => Sub(Ns([s |-> A[1], n |-> A[2]]), Ns(Now)) = Up(c.x, 2)
         /\ c.f = "after" => Sub(Ns([s |-> A[1], n |-> A[2]]), Ns(Now)) = Add(Up(c.x, 3), c.y)
RoundTrip == /\ c.f = "uns" => EpochNsFrom(A[1]) = c.x
             /\ c.f = "usec" => Down(EpochNsFrom(A[1]), 3) = c.x
             /\ c.f = "ums" => Down(EpochNsFrom(A[1]), 2) = c.x
Alive == c.f = "ttl" => A[1] # Zero /\ (A[1] = Never <=> c.x = Zero \/ (c.x = Never /\ SecSinceEpoch(Now) = Zero))
Emit == PrintT("@@" \o ToJson([c |-> c, a |-> A]))
=============================================================================
