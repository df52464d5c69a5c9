-------------------------- MODULE ByteBufferTrace --------------------------
(* Positions and lengths of a hundred thousand and more are logged as FAR;    *)
(* no buffer is that large.                                                   *)
EXTENDS ByteBuffer, TraceUtil
VARIABLES b, i
Init == b = New(0) /\ i = 1

(* Learn unwritten bytes from the observation. *)
Learn(n, q) == [n EXCEPT !.mem = [j \in 1..Len(n.mem) |-> IF j <= Len(q) THEN q[j] ELSE n.mem[j]]]
Obs(e, n) == /\ Same(e.o \o " size", i, n.size, e.n)
             /\ Same(e.o \o " capacity", i, Cap(n), e.c)
             /\ IF Agrees(Contents(n), e.q) THEN TRUE ELSE Same(e.o \o " contents", i, Contents(n), e.q)
             /\ b' = Learn(n, e.q)
R(x) == IF x THEN 1 ELSE 0

Step(e) ==
    CASE e.o = "init" -> Obs(e, IF e.wrap = 1 THEN Wrap(e.w) ELSE New(e.cap))
      [] e.o = "set" ->
            IF e.len < 100000 /\ CanSet(b, e.ix, e.len) THEN Same("set status", i, 1, e.r) /\ Obs(e, Set(b, e.ix, e.w))
            ELSE Same("set status", i, 0, e.r) /\ Obs(e, b)
      [] e.o = "app" ->
            IF e.len < 100000 /\ CanSet(b, b.size, e.len) THEN Same("append status", i, 1, e.r) /\ Obs(e, Set(b, b.size, e.w))
            ELSE Same("append status", i, 0, e.r) /\ Obs(e, b)
      [] e.o = "get" ->
            IF CanRead(b, e.ix, e.len) THEN /\ Same("bytes read", i, e.len, e.r)
                                            /\ Holds("read value", i, Agrees(Read(b, e.ix, e.len), e.w)) /\ Obs(e, b)
            ELSE Same("bytes read", i, 0, e.r) /\ Same("target after refused read", i, <<>>, e.w) /\ Obs(e, b)
      [] e.o = "trunc" ->
            IF e.len <= b.size THEN Same("truncate status", i, 1, e.r) /\ Obs(e, Truncate(b, e.len))
            ELSE Same("truncate status", i, 0, e.r) /\ Obs(e, b)
      [] e.o = "ensure" ->
            IF e.cap <= Cap(b) THEN Same("ensure status", i, 1, e.r) /\ Obs(e, b)
            ELSE IF e.rs = 0 THEN Same("ensure status", i, 0, e.r) /\ Obs(e, b)
            ELSE Same("ensure status", i, 1, e.r) /\ Obs(e, Grow(b, e.cap))
      [] e.o = "setv" ->
            LET vb == VarBytes(e.v) IN
            IF CanSet(b, e.ix, Len(vb)) THEN
                 Same("bytes written", i, Len(vb), e.r) /\ Obs(e, [b EXCEPT !.mem = Store(@, e.ix, vb)])
            ELSE Same("bytes written", i, 0, e.r) /\ Obs(e, b)
      [] e.o = "getv" ->
            LET n == VarSize(b, e.ix) IN
            /\ n # UNK => Same("variable-length size", i, n, e.r)
            /\ n > 0 /\ (n = 5 => b.mem[e.ix + 5] < 16) => Same("variable-length value", i, VarValue(b, e.ix, n), e.v)
            /\ Obs(e, b)

Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
