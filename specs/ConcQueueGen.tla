---------------------------- MODULE ConcQueueGen ----------------------------
(* All small concurrent programs over a menu of calls, on a queue of capacity *)
(* cap holding fill items.  The digits of a shape are the numbers of calls of *)
(* its threads.  Threads of equal length are interchangeable, so only one     *)
(* order of them is produced.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Menu, Shapes

Letters ==
    CASE Menu = "mt"      -> <<<<"push", 0>>, <<"pushh", 0>>, <<"pushl", 0>>, <<"pushhl", 0>>,
                               <<"pop", 0>>, <<"popt", 0>>, <<"size", 0>>, <<"empty", 0>>>>
      [] Menu = "mtwait"  -> <<<<"push", 0>>, <<"pushh", 0>>, <<"pushl", 0>>, <<"pushhl", 0>>,
                               <<"pop", -1>>, <<"popt", -1>>, <<"pop", 50>>, <<"popt", 20>>, <<"pop", 0>>>>
      [] Menu = "mttime"  -> <<<<"pop", 50>>, <<"popt", 20>>, <<"push", 0>>, <<"pop", 0>>, <<"pop", 1000>>>>
      [] Menu = "cf"      -> <<<<"push", 0>>, <<"pushh", 0>>, <<"pushl", 1>>, <<"pushl", 2>>, <<"pushi", 0>>,
                               <<"pushi", 1>>, <<"pushu", 0>>, <<"peek", 0>>, <<"pop", 0>>, <<"redp", 0>>,
                               <<"red", 0>>, <<"redr", 0>>, <<"del1", 0>>, <<"dela", 0>>, <<"clear", 0>>, <<"size", 0>>>>
      [] Menu = "cfwait"  -> <<<<"push", 0>>, <<"pushh", 0>>, <<"pushl", 2>>, <<"pushi", 0>>, <<"pushu", 0>>,
                               <<"pop", -1>>, <<"redp", -1>>, <<"pop", 50>>, <<"redp", 20>>, <<"pop", 0>>,
                               <<"pop", -5>>, <<"del1", 0>>>>
      [] Menu = "cftime"  -> <<<<"pop", 50>>, <<"redp", 20>>, <<"push", 0>>, <<"pop", 0>>, <<"redp", 1000>>>>

N == Len(Letters)
Name(ix) == Letters[ix][1]
Fills == {<<1, 0>>, <<1, 1>>, <<2, 1>>}

Code(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] * (N + 1) + p[2]
Calls(ps) == UNION {{Name(ps[t][k]) : k \in 1 .. Len(ps[t])} : t \in 1 .. Len(ps)}
Pushes(ps) == Cardinality({<<t, k>> \in (1 .. Len(ps)) \X (1 .. 2) :
                  k <= Len(ps[t]) /\ Name(ps[t][k]) \in {"push", "pushh", "pushl", "pushhl"}})

Sorted(ps) == \A t \in 1 .. (Len(ps) - 1) : Len(ps[t]) = Len(ps[t + 1]) => Code(ps[t]) <= Code(ps[t + 1])

(* Left open by the specification: how far a full queue grows (so bounded     *)
(* pushes after growth), and the unlocked size during a bulk deletion.        *)
Decided(ps, f) ==
    /\ ~ ({"pushl", "pushhl"} \cap Calls(ps) # {} /\ {"push", "pushh"} \cap Calls(ps) # {}
          /\ Menu \in {"mt", "mtwait", "mttime"} /\ f[2] + Pushes(ps) > f[1])
    /\ ~ ("size" \in Calls(ps) /\ {"clear", "dela"} \cap Calls(ps) # {})

VARIABLES prog

RECURSIVE Digits(_)
Digits(m) == IF m < 10 THEN <<m>> ELSE Append(Digits(m \div 10), m % 10)

Threads(sh) ==
    CASE Len(sh) = 1 -> {<<a>> : a \in [1 .. sh[1] -> 1 .. N]}
      [] Len(sh) = 2 -> {<<a, b>> : a \in [1 .. sh[1] -> 1 .. N], b \in [1 .. sh[2] -> 1 .. N]}
      [] Len(sh) = 3 -> {<<a, b, c>> : a \in [1 .. sh[1] -> 1 .. N], b \in [1 .. sh[2] -> 1 .. N], c \in [1 .. sh[3] -> 1 .. N]}
      [] OTHER -> {<<a, b, c, d>> : a \in [1 .. sh[1] -> 1 .. N], b \in [1 .. sh[2] -> 1 .. N],
                                    c \in [1 .. sh[3] -> 1 .. N], d \in [1 .. sh[4] -> 1 .. N]}

Init == \E sh \in Shapes, f \in Fills : \E ps \in Threads(Digits(sh)) :
            /\ Sorted(ps) /\ Decided(ps, f)
            /\ prog = [cap |-> f[1], fill |-> f[2], ps |-> ps]
Next == FALSE /\ prog' = prog
Emit == PrintT("@@" \o ToJson([cap |-> prog.cap, fill |-> prog.fill,
            th |-> [t \in 1 .. Len(prog.ps) |-> [k \in 1 .. Len(prog.ps[t]) |-> Letters[prog.ps[t][k]]]]]))
=============================================================================
