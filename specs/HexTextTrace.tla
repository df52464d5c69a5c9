---------------------------- MODULE HexTextTrace ----------------------------
EXTENDS HexText, TraceUtil
VARIABLE i
Init == i = 1
Step(e) ==
    IF e.o = "p" THEN LET x == Print(e.b, e.room, e.pre = 1) IN
        Same("printing status", i, x.ok, e.r) /\ Same("printed text", i, x.text, e.t)
    ELSE LET x == Parse(e.t, e.room) IN
        /\ Same("parsing status", i, x.r, e.r) /\ x.r >= 0 => Same("parsed bytes", i, x.bytes, e.b)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
