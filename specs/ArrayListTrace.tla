--------------------------- MODULE ArrayListTrace ---------------------------
(* Histories over two lists, numbered 0 and 1.                                *)
EXTENDS ArrayList, TraceUtil
VARIABLES ls, i
Init == ls = <<New(0, 0), New(0, 0)>> /\ i = 1

Far == 100000   \* positions of a hundred thousand and more are logged as this

Obs(e, n) == /\ Same(e.o \o " contents", i, n[1].q, e.q0)
             /\ Same(e.o \o " other contents", i, n[2].q, e.q1)
             /\ Same(e.o \o " size", i, Len(n[1].q), e.n0)
             /\ Same(e.o \o " other size", i, Len(n[2].q), e.n1)

Edits == {"set", "ins", "app", "pre", "rem", "trim", "cat"}

Step(e) ==
    IF e.o = "init" THEN LET n == <<New(e.c0, e.b0), New(e.c1, e.b1)>> IN ls' = n /\ Obs(e, n)
    ELSE LET l == ls[e.l + 1] IN
    IF e.o = "huge" THEN
        \* a position no memory can hold is refused and changes nothing
        /\ Holds("refused position", i, e.r = IF l.blk = 0 THEN ERR_MAX ELSE ERR_ALLOC)
        /\ Obs(e, ls) /\ ls' = ls
    ELSE IF e.o \in Edits THEN
        LET a == Edit(l, ls[e.m + 1], e.o, e.ix, e.x)
            n == [ls EXCEPT ![e.l + 1] = a.l] IN
        /\ Same(e.o \o " status", i, a.r, e.r) /\ Obs(e, n) /\ ls' = n
    ELSE IF e.o \in {"take", "drop", "tail"} THEN
        \* the derived list becomes list 1
        IF e.o = "tail" /\ l.q = <<>> THEN Same("tail of empty", i, 0, e.r) /\ Obs(e, ls) /\ ls' = ls
        ELSE LET d == IF e.o = "take" THEN Take(l, e.ix) ELSE IF e.o = "drop" THEN Drop(l, e.ix) ELSE Drop(l, 1)
                 n == [ls EXCEPT ![2] = d] IN
             /\ Same(e.o \o " made", i, 1, e.r) /\ Obs(e, n) /\ ls' = n
    ELSE /\ Same(e.o, i,
              CASE e.o = "get"  -> Get(l, e.ix)
                [] e.o = "head" -> Get(l, 0)
                [] e.o = "geti" -> GetAs(l, e.ix, 1, 0)
                [] e.o = "getd" -> GetAs(l, e.ix, 2, 0)
                [] e.o = "gets" -> GetAs(l, e.ix, 3, -1), e.v)
         /\ Obs(e, ls) /\ ls' = ls

Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
