-------------------------- MODULE FaultCodecTrace ---------------------------
EXTENDS FaultCodec, TraceUtil
VARIABLES x, ans, i
Init == x = Nothing /\ ans = 0 /\ i = 1

Step(e) ==
    IF e.o = "init"
    THEN LET w == TLCEval(IF "v" \in DOMAIN e THEN Work(e.v, e.u) ELSE WorkOf(e.b, e.c)) IN
         /\ Same("encoding", i, w.b, e.b)
         /\ Same("encoding of the second value", i, w.c, e.c)
         /\ x' = w
         /\ ans' = 0
    ELSE /\ x' = x
         /\ ans' = IF e.k = 0 /\ e.o \in {"cmp", "vcm"} THEN e.n ELSE ans
         /\ Holds("a refusal follows a failed allocation", i, e.r # 0 => e.hit = 1)
         /\ Same("allocations left behind", i, 0, e.lv)
         /\ CASE e.o \in {"ser", "siz", "pre"} ->
                   /\ Same("what was given is as before", i, 1, e.kept)
                   /\ Same("complete result", i, IF Answered(e) THEN 1 ELSE 0, e.same)
              [] e.o \in {"dec", "des"} ->
                   /\ Same("what was given is as before", i, 1, e.kept)
                   /\ (Answered(e) => /\ Same("encodes again to the same bytes", i, 1, e.same)
                                       /\ ("d" \in DOMAIN e => Same("decoded", i, x.v, Norm(e.d))))
              [] e.o = "skp" -> Answered(e) => Same("size", i, Len(x.b), e.n)
              [] e.o \in {"cmp", "vcm"} ->
                   (* P06 and P07 say which answer is right *)
                   Answered(e) => IF e.k = 0 THEN TRUE ELSE Same("comparison", i, ans, e.n)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
