-------------------------- MODULE LinkedListTrace --------------------------
EXTENDS LinkedList, TraceUtil

VARIABLES q, dtor, i
Init == q = <<>> /\ dtor = 1 /\ i = 1

(* pairs [element, verdict] as a function *)
Verdicts(e) == [x \in {e.vd[k][1] : k \in 1 .. Len(e.vd)} |->
                  e.vd[CHOOSE k \in 1 .. Len(e.vd) : e.vd[k][1] = x][2]]

Outcome(e) ==
    CASE e.o = "pre"  -> Prepend(q, e.x)
      [] e.o = "app"  -> AppendTo(q, e.x)
      [] e.o = "aft"  -> InsertAfter(q, e.c, e.x)
      [] e.o = "bef"  -> InsertBefore(q, e.c, e.x)
      [] e.o = "del"  -> Delete(q, e.x)
      [] e.o = "red"  -> Reduce(q, e.fwd, Verdicts(e))
      [] e.o = "insr" -> InsertReduce(q, e.fwd, e.x, Verdicts(e), e.vend)
      [] e.o = "sea"  -> Search(q, e.fwd, Verdicts(e))
      [] e.o = "idx"  -> Index(q, e.ix)

Step(e) ==
    IF e.o = "init" THEN q' = <<>> /\ dtor' = e.dtor
    ELSE LET a == Outcome(e) IN
         /\ Same(e.o \o " forward", i, a.q, e.f)
         /\ Same(e.o \o " backward", i, Rev(a.q), e.b)
         /\ Same(e.o \o " iterator forward", i, a.q, e["if"])
         /\ Same(e.o \o " iterator backward", i, Rev(a.q), e.ib)
         /\ Same(e.o \o " size", i, Len(a.q), e.n)
         /\ Same(e.o \o " destroyed", i, IF dtor = 1 THEN a.gone ELSE <<>>, e.gone)
         /\ Same(e.o \o " visited", i, a.see, e.see)
         /\ (e.o \in {"sea", "idx"}) => Same(e.o \o " found", i, a.v, e.v)
         \* a completed visit returns no negative verdict
         /\ (e.o = "red") => IF a.r < 0 THEN Same("reduce verdict", i, a.r, e.r) ELSE Holds("reduce verdict", i, e.r >= 0)
         /\ (e.o = "insr") => Same("insert verdict", i, a.r, e.r)
         /\ q' = a.q /\ dtor' = dtor

Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
