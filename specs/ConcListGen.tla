----------------------------- MODULE ConcListGen ----------------------------
(* All small concurrent programs on a list of 1 to 4 elements.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shapes
Letters == <<"pre", "app", "aft", "bef", "del", "redf", "redb", "seef", "seeb", "insf", "insb", "srch", "size">>
N == Len(Letters)
VARIABLES prog
RECURSIVE Digits(_)
Digits(m) == IF m < 10 THEN <<m>> ELSE Append(Digits(m \div 10), m % 10)
Threads(sh) ==
    CASE Len(sh) = 2 -> {<<a, b>> : a \in [1 .. sh[1] -> 1 .. N], b \in [1 .. sh[2] -> 1 .. N]}
      [] OTHER -> {<<a, b, c>> : a \in [1 .. sh[1] -> 1 .. N], b \in [1 .. sh[2] -> 1 .. N], c \in [1 .. sh[3] -> 1 .. N]}
Code(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] * (N + 1) + p[2]
Sorted(ps) == \A t \in 1 .. (Len(ps) - 1) : Len(ps[t]) = Len(ps[t + 1]) => Code(ps[t]) <= Code(ps[t + 1])
(* each thread removes at most one element *)
Dels(p) == Cardinality({k \in 1 .. Len(p) : Letters[p[k]] = "del"})
Init == \E sh \in Shapes, f \in {1, 2, 4} : \E ps \in Threads(Digits(sh)) :
            /\ Sorted(ps)
            /\ \A t \in 1 .. Len(ps) : Dels(ps[t]) <= 1
            /\ (f < 4 => Cardinality({t \in 1 .. Len(ps) : Dels(ps[t]) = 1}) < f)
            /\ prog = [fill |-> f, ps |-> ps]
Next == FALSE /\ prog' = prog
Emit == PrintT("@@" \o ToJson([fill |-> prog.fill, th |-> [t \in 1 .. Len(prog.ps) |-> [k \in 1 .. Len(prog.ps[t]) |-> Letters[prog.ps[t][k]]]]]))
=============================================================================
