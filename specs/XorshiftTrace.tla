--------------------------- MODULE XorshiftTrace ----------------------------
EXTENDS Xorshift, TraceUtil
VARIABLES s, seen, i
Init == s = <<>> /\ seen = {} /\ i = 1
Distinct(q) == \A j, k \in 1 .. Len(q) : j # k => q[j] # q[k]
(* eight places of a text share a number; every character turns up at each *)
Places(r) == {<<k % 8, r[k]>> : k \in 1 .. Len(r)}

(* The numbers used for a text are not fixed; drawing goes on from the state  *)
(* reported after it.                                                         *)
Step(e) ==
    CASE e.o = "init" -> s' = e.s
      [] e.o = "u64" -> s' = After(s) /\ Same("number drawn", i, Drawn(s), e.r)
      [] e.o = "u32" -> s' = After(s) /\ Same("half of the number drawn", i, SubSeq(Drawn(s), 3, 4), e.r)
      [] e.o = "bytes" -> LET d == Draw(s, e.n, <<>>) IN s' = d.s /\ Same("bytes drawn", i, d.b, e.r)
      [] e.o = "str" ->
           /\ s' = e.s
           /\ Holds("text from the draws alone", i, e.twin)
           /\ Same("length of the text", i, e.n, Len(e.r))
           /\ Same("terminator", i, 0, e.z)
           /\ Holds("letters and digits", i, \A k \in 1 .. Len(e.r) : IsAlnum(e.r[k]))
      [] e.o = "threads" ->
           /\ s' = s
           /\ Holds("an instance for each thread", i, Distinct(e.p))
           /\ Holds("the same instance again, going on where it was", i, \A k \in 1 .. Len(e.again) : e.again[k])
           /\ Holds("seeds of their own", i, Distinct(e.s))
      [] e.o = "end" -> s' = s /\ Same("characters that never occur", i, {}, {<<k, c>> : k \in 0 .. 7, c \in Alnum} \ seen)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ seen' = (IF Trace[i].o = "str" THEN seen \cup Places(Trace[i].r) ELSE seen) /\ i' = i + 1
Post == Accepted
=============================================================================
