------------------------- MODULE StringBuilderTrace -------------------------
EXTENDS StringBuilder, TraceUtil
VARIABLES s, i
Init == s = [text |-> <<>>, cap |-> 1, grow |-> 0] /\ i = 1

Outcome(e) ==
    CASE e.o = "str"  -> AppendText(s, e.t)
      [] e.o = "chr"  -> AppendText(s, e.t)
      [] e.o = "hex"  -> AppendHex(s, e.t)
      [] e.o = "int"  -> AppendText(s, SignedDec(e.w))
      [] e.o = "uint" -> AppendText(s, DecDigits(e.w))
      [] e.o = "reset" -> [s |-> [s EXCEPT !.text = <<>>], r |-> 1]

Obs(e, st) ==
    /\ Same(e.o \o " text", i, st.text, e.d)
    /\ Same(e.o \o " length", i, Len(st.text), e.n)
    /\ Same(e.o \o " terminated", i, 0, e.z)
    /\ Holds("capacity", i, IF st.grow = 1 THEN e.c > Len(st.text) ELSE e.c = st.cap)

Step(e) ==
    IF e.o = "init" THEN s' = [text |-> <<>>, cap |-> e.cap, grow |-> e.g] /\ Obs(e, [text |-> <<>>, cap |-> e.cap, grow |-> e.g])
    ELSE LET a == Outcome(e) IN
         /\ Same(e.o \o " result", i, a.r, e.r)
         /\ Obs(e, a.s)
         /\ s' = a.s
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
