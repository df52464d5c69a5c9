-------------------------- MODULE OrderedMapTrace --------------------------
(* Histories of map calls over keys of every kind.                            *)
EXTENDS OrderedMap, TraceUtil
VARIABLES m, i
Init == m = Empty /\ i = 1

Step(e) ==
    IF e.o = "init" THEN m' = Empty /\ Same("size", i, 0, e.n)
    ELSE IF e.o = "set" THEN
        LET n == Put(m, e.k, e.v) IN
        /\ Same("set status", i, 0, e.r) /\ Same("size", i, Size(n), e.n) /\ m' = n
    ELSE IF e.o = "rem" THEN
        LET n == Del(m, e.k) IN
        /\ Same("remove status", i, 0, e.r) /\ Same("size", i, Size(n), e.n) /\ m' = n
    ELSE IF e.o = "clear" THEN
        /\ Same("clear status", i, 0, e.r) /\ Same("size", i, 0, e.n) /\ m' = Empty
    ELSE IF e.o = "get" THEN
        /\ Same("get", i, Lookup(m, e.k), e.v) /\ Same("size", i, Size(m), e.n) /\ m' = m
    ELSE IF e.o = "bad" THEN    \* unsupported key: set, get, remove
        /\ Same("refused set", i, TRUE, e.rs # 0) /\ Same("refused get", i, NONE, e.v)
        /\ Same("refused remove", i, TRUE, e.rr # 0)
        /\ Same("size", i, Size(m), e.n) /\ m' = m
    ELSE \* visit
        /\ Same("visit complete", i, 1, e.r)
        /\ Holds("visit", i, IsVisit(m, e.ks, e.vs, Less)) /\ m' = m

Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
