--------------------------- MODULE FaultTextTrace ---------------------------
EXTENDS FaultText, TraceUtil
VARIABLES x, i
Init == x = <<>> /\ i = 1

Step(e) ==
    CASE e.o = "init" -> x' = (IF "v" \in DOMAIN e THEN Norm(e.v) ELSE <<>>)
      [] e.o = "txt" ->
           /\ x' = x
           /\ Holds("a missing text follows a failed allocation", i, e.r # 0 => (e.hit = 1 \/ ~ Own(x)))
           /\ Same("allocations left behind", i, 0, e.lv)
           /\ (e.r = 0 => Holds("printed", i, Printed(x, e.hit = 1, e.s)))
      [] e.o = "build" -> x' = <<>>
      [] e.o = "piece" ->
           /\ x' = e.s
           /\ Holds("a refusal follows a failed allocation", i, e.r # 0 => e.hit = 1)
           /\ Same("terminated", i, 1, e.z)
           /\ Same("length", i, Len(e.s), e.n)
           /\ IF e.r = 0 THEN Same("text", i, x \o Piece(e.p, e.t), e.s)
              ELSE Holds("text kept", i, Begun(x, Piece(e.p, e.t), e.s))
      [] e.o = "built" -> x' = x /\ Same("allocations left behind", i, 0, e.lv)
      [] e.o = "base" ->
           /\ x' = x
           /\ Holds("a refusal follows a failed allocation", i, e.r # 0 => e.hit = 1)
           /\ Same("allocations left behind", i, 0, e.lv)
           /\ (e.r = 0 => Same("base name", i, BaseName(e.t), e.s))
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
