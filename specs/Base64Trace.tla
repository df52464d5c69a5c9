----------------------------- MODULE Base64Trace ----------------------------
EXTENDS Base64, TraceUtil
VARIABLES i
Init == i = 1

Step(e) ==
    CASE e.o = "enc" ->
           /\ Same("predicted length", i, TextLen(Len(e.b)), e.n)
           /\ Same("text", i, Encode(e.b), e.t)
      [] e.o = "dec" ->   (* e.v: validated; e.z: the size was not asked for *)
           /\ Same("accepted", i, e.v = 0 \/ WellFormed(e.t), e.r = 1)
           /\ (e.r = 1 /\ e.z = 0 => Same("decoded size", i, Count(e.t), e.n))
           /\ (e.r = 1 => Same("decoded bytes", i, Decode(e.t), e.b))
           /\ Same("room needed", i, 3 * (Len(e.t) \div 4), e.m)
      [] e.o = "room" ->   (* lengths in units of four characters (three bytes) *)
           /\ Same("room needed for a long text", i, 3 * e.q, e.m[1] * 65536 + e.m[2])
      [] e.o = "long" ->   (* e.q groups of three zero bytes and their text of A's *)
           /\ Same("text of many zeros", i, 1, e.same)
           /\ Same("end of the text of many zeros", i, Encode(e.last), e.t)
      [] e.o = "back" ->
           /\ Same("accepted", i, 1, e.r)
           /\ Same("many zeros decoded", i, 1, e.same)
           /\ Same("number of zeros decoded", i, e.q, e.n)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
