--------------------------- MODULE LinkedListGen ---------------------------
(* Lists of up to Max elements and every visit over them: all verdict         *)
(* assignments, both directions, with the outcome LinkedList prescribes.      *)
EXTENDS LinkedList, TLC, Json
CONSTANT Max
VARIABLES n, done
Init == n \in 0 .. Max /\ done = FALSE
List == [k \in 1 .. n |-> k]
Case(kind, fwd, vd, vend, a) ==
    PrintT("@@" \o ToJson([n |-> n, kind |-> kind, fwd |-> fwd, vd |-> [k \in 1 .. n |-> vd[k]], vend |-> vend,
                           q |-> a.q, gone |-> a.gone, see |-> a.see, r |-> a.r, v |-> a.v]))
Next == /\ ~ done /\ done' = TRUE /\ n' = n
        /\ \A fwd \in {0, 1}, vd \in [1 .. n -> {0, DELETE, -7}] : Case("red", fwd, vd, 0, Reduce(List, fwd, vd))
        /\ \A fwd \in {0, 1}, vd \in [1 .. n -> {0, INSERT, -7}], ve \in {0, INSERT, -7} :
                Case("insr", fwd, vd, ve, InsertReduce(List, fwd, n + 1, vd, ve))
        /\ \A fwd \in {0, 1}, vd \in [1 .. n -> {3, 4, -1}] : Case("sea", fwd, vd, 0, Search(List, fwd, vd))
=============================================================================
