----------------------------- MODULE ForwardGen -----------------------------
(* Every object: kind, placement, supplied operations; then call sequences.   *)
EXTENDS Forward, TLC, Json, FiniteSets
CONSTANTS Depth
VARIABLES kind, ops, place, calls
AllCalls(k) == {c[1] : c \in Calls[k]} \cup {"destroy"} \cup (IF k = "stream" THEN {"can"} ELSE {}) \cup (IF k = "rec" THEN {"reserve", "text"} ELSE {})
Small == {"stream", "iterator", "timer", "module"}
OpSets(k) == LET A == Operations(k) IN
             IF k = "rec" THEN {A, {}} \cup {A \ {x} : x \in A} \cup {{x} : x \in A} ELSE SUBSET A
Init == /\ kind \in Kinds
        /\ ops \in OpSets(kind)
        /\ place \in {"given", "heap"} \cup (IF ops = {} THEN {"nohooks"} \cup (IF kind # "iterator" THEN {"null"} ELSE {}) ELSE {})
        /\ calls = <<>>
(* after the object is destroyed there are no more calls *)
Live == LET n(x) == Cardinality({j \in 1 .. Len(calls) : calls[j] = x}) IN n("destroy") = 0 \/ n("destroy") <= n("reserve")
Next == /\ Live
        /\ Len(calls) < (IF kind \in Small THEN Depth ELSE 1)
        /\ \E c \in AllCalls(kind) : calls' = Append(calls, c)
        /\ UNCHANGED <<kind, ops, place>>
Emit == (calls # <<>> /\ (~ Live \/ Len(calls) = (IF kind \in Small THEN Depth ELSE 1)))
        => PrintT("@@" \o ToJson([k |-> kind, ops |-> ops, p |-> place, c |-> calls]))
=============================================================================
