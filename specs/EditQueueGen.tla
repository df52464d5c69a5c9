---------------------------- MODULE EditQueueGen ----------------------------
(* Every operation sequence of the given depth over two items, with the       *)
(* results EditQueue prescribes.  Pre rotates the ring before the sequence:   *)
(* the driver pushes and pops that many items first.                          *)
EXTENDS EditQueue, TLC, Json

CONSTANTS Depth, Caps, Fills

VARIABLES q, hist, cap0, fill

Init == /\ cap0 \in Caps /\ fill \in Fills
        /\ q = [k \in 1 .. fill |-> k % 2]
        /\ hist = <<>>

(* op, item, argument, verdict of item 0, verdict of item 1 *)
Calls == {<<"push", 1, 0, 0, 0>>, <<"pushh", 0, 0, 0, 0>>, <<"pop", 0, 0, 0, 0>>, <<"pushu", 1, 0, 0, 0>>,
          <<"red", 0, 0, 0, -2>>, <<"redr", 0, 0, -2, 0>>, <<"redr", 0, 0, 0, -2>>,
          <<"redp", 0, 0, -1, 0>>, <<"redp", 0, 0, 0, -2>>, <<"redp", 0, 0, -2, -2>>,
          <<"del1", 0, 0, 0, 0>>, <<"del1", 1, 0, 0, 0>>, <<"dela", 0, 0, 0, 0>>, <<"dela", 1, 0, 0, 0>>}
         \cup {<<"pushi", x, ix, 0, 0>> : x \in {0, 1}, ix \in 1 .. 3}

Next == /\ Len(hist) < Depth
        /\ \E cl \in Calls :
             LET a == Apply(q, cl[1], cl[2], cl[3], [x \in {0, 1} |-> cl[4 + x]])
                 h == Append(hist, <<cl, a.r, a.v, a.see, a.q>>) IN
             /\ q' = a.q /\ hist' = h /\ UNCHANGED <<cap0, fill>>
             /\ Len(h) = Depth => PrintT("@@" \o ToJson([c |-> cap0, f |-> fill, h |-> h]))
=============================================================================
