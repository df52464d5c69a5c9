------------------------------- MODULE Clock -------------------------------
(* Instants and durations as natural numbers of nanoseconds, microseconds,   *)
(* milliseconds or seconds.  A number is a sequence of digits in base 1000,  *)
(* least significant first, so that every unit change is a shift and all     *)
(* arithmetic is exact.                                                      *)
EXTENDS Integers, Sequences, SequencesExt, TLC

W == 10
Digit(a, k) == IF k \in 1 .. Len(a) THEN a[k] ELSE 0
Norm(a) == TLCEval([k \in 1 .. W |-> Digit(a, k)])
Zero == Norm(<<>>)

Ks == [k \in 1 .. W |-> k]
Digitwise(op(_, _), a, b) ==
    FoldLeft(LAMBDA acc, k : LET d == op(Digit(a, k), Digit(b, k)) + acc.c IN
                             [c |-> IF d >= 1000 THEN 1 ELSE IF d < 0 THEN -1 ELSE 0,
                              d |-> Append(acc.d, (d + 1000) % 1000)],
             [c |-> 0, d |-> <<>>], Ks)
Plus(x, y) == x + y
Minus(x, y) == x - y
Add(a, b) == Digitwise(Plus, a, b).d
Sub(a, b) == Digitwise(Minus, a, b).d
Less(a, b) == Digitwise(Minus, a, b).c = -1

Up(a, n) == TLCEval([k \in 1 .. W |-> Digit(a, k - n)])      \* times 1000^n
Down(a, n) == TLCEval([k \in 1 .. W |-> Digit(a, k + n)])    \* divided by 1000^n
Low(a, n) == TLCEval([k \in 1 .. W |-> IF k <= n THEN Digit(a, k) ELSE 0])

(* the product's epoch in seconds: 1262304000 *)
EpochS == Norm(<<0, 304, 262, 1>>)
EpochMs == Up(EpochS, 1)
EpochNs == Up(EpochS, 3)

(* now is the wall clock, [s |-> seconds, n |-> nanoseconds within the second] *)
Ns(t) == Add(Up(t.s, 3), t.n)
Split(ns) == [s |-> Down(ns, 3), n |-> Low(ns, 3)]

Deadline(now, ms) == Split(Add(Ns(now), Up(ms, 2)))
After(now, delta) == Split(Add(Ns(now), Ns(delta)))
Span(ms) == Split(Up(ms, 2))

MsSinceEpoch(now) == Sub(Down(Ns(now), 2), EpochMs)
SecSinceEpoch(now) == Sub(now.s, EpochS)

EpochNsFrom(ns) == IF Less(EpochNs, ns) THEN Sub(ns, EpochNs) ELSE Zero
NsFromEpoch(x, unit) == Add(EpochNs, Up(x, unit))

Never == Norm(<<295, 967, 294, 4>>)     \* 2^32 - 1
Ttl(now, void) ==
    IF void = Zero THEN Never
    ELSE IF Less(SecSinceEpoch(now), void) THEN Sub(void, SecSinceEpoch(now))
    ELSE Norm(<<1>>)

(* expected answer of call f with argument x (and y) at the moment now *)
Answer(f, now, x, y) ==
    CASE f = "wait"  -> LET d == Deadline(now, x) IN <<d.s, d.n>>
      [] f = "after" -> LET d == After(now, [s |-> x, n |-> y]) IN <<d.s, d.n>>
      [] f = "span"  -> LET d == Span(x) IN <<d.s, d.n>>
      [] f = "getns" -> <<Ns(now), Zero>>
      [] f = "getus" -> <<Down(Ns(now), 1), Zero>>
      [] f \in {"getms", "abs"} -> <<Down(Ns(now), 2), Zero>>
      [] f = "secs"  -> <<now.s, Zero>>
      [] f = "cems"  -> <<MsSinceEpoch(now), Zero>>
      [] f \in {"cesec", "ce32"} -> <<SecSinceEpoch(now), Zero>>
      [] f = "ens"   -> <<EpochNsFrom(x), Zero>>
      [] f = "eus"   -> <<Down(EpochNsFrom(x), 1), Zero>>
      [] f = "ems"   -> <<Down(EpochNsFrom(x), 2), Zero>>
      [] f = "esec"  -> <<Down(EpochNsFrom(x), 3), Zero>>
      [] f = "uns"   -> <<NsFromEpoch(x, 0), Zero>>
      [] f = "uus"   -> <<NsFromEpoch(x, 1), Zero>>
      [] f = "ums"   -> <<NsFromEpoch(x, 2), Zero>>
      [] f = "usec"  -> <<NsFromEpoch(x, 3), Zero>>
      [] f = "ttl"   -> <<Ttl(now, x), Zero>>
=============================================================================
