---------------------------- MODULE BigMapTrace ----------------------------
(* Histories over thousands of keys. Keys are the naturals 1..N standing for  *)
(* integer keys in the same order; the map is an array with NONE for absent.  *)
EXTENDS Integers, Sequences, TraceUtil
VARIABLES m, n, i
NONE == -1
Init == m = <<>> /\ n = 0 /\ i = 1

IsVisit(ks, vs) ==
    /\ Len(ks) = n /\ Len(vs) = n
    /\ \A j \in 1..n : m[ks[j]] = vs[j]
    /\ \A j \in 1..(n - 1) : ks[j] < ks[j + 1]
Dom == 1..Len(m)

Step(e) ==
    IF e.o = "init" THEN m' = [k \in 1..e.max |-> NONE] /\ n' = 0 /\ Same("size", i, 0, e.n)
    ELSE IF e.o = "set" THEN
        /\ n' = IF m[e.k] = NONE THEN n + 1 ELSE n
        /\ m' = [m EXCEPT ![e.k] = e.v]
        /\ Same("set status", i, 0, e.r) /\ Same("size", i, n', e.n)
    ELSE IF e.o = "rem" THEN
        /\ n' = IF m[e.k] = NONE THEN n ELSE n - 1
        /\ m' = [m EXCEPT ![e.k] = NONE]
        /\ Same("remove status", i, 0, e.r) /\ Same("size", i, n', e.n)
    ELSE IF e.o = "get" THEN
        /\ Same("get", i, m[e.k], e.v) /\ Same("size", i, n, e.n) /\ UNCHANGED <<m, n>>
    ELSE IF e.o = "clear" THEN
        /\ m' = [k \in Dom |-> NONE] /\ n' = 0
        /\ Same("clear status", i, 0, e.r) /\ Same("size", i, 0, e.n)
    ELSE
        /\ Same("visit complete", i, 1, e.r)
        /\ Holds("visit", i, IsVisit(e.ks, e.vs)) /\ UNCHANGED <<m, n>>

Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
