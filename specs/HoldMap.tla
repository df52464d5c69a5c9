------------------------------ MODULE HoldMap ------------------------------
(* Design of the map's storage: a sorted table, plus a bounded sorted hold    *)
(* table for insertions far from the end of the main table, each with the     *)
(* main position it belongs before. The hold table is merged when it is full, *)
(* and before a removal or a visit. Checked to behave as the ideal map.       *)
EXTENDS OrderedMap, TLC
CONSTANTS Keys, Cap, Near, Vals
VARIABLES main, hold, ghost
\* main: sequence of <<key, value>>; hold: sequence of <<key, value, position>>
Init == main = <<>> /\ hold = <<>> /\ ghost = Empty

\* number of entries below k
Pos(t, k) == Cardinality({j \in 1..Len(t) : t[j][1] < k})
Has(t, k) == \E j \in 1..Len(t) : t[j][1] = k
InsAt(t, p, x) == SubSeq(t, 1, p) \o <<x>> \o SubSeq(t, p + 1, Len(t))
DelAt(t, p) == SubSeq(t, 1, p) \o SubSeq(t, p + 2, Len(t))

\* merge by the recorded positions, last first
RECURSIVE Merge(_, _)
Merge(a, h) ==
    IF h = <<>> THEN a
    ELSE LET x == h[Len(h)] IN
         Merge(SubSeq(a, 1, x[3]) \o <<<<x[1], x[2]>>>> \o SubSeq(a, x[3] + 1, Len(a)), SubSeq(h, 1, Len(h) - 1))

SetIn(k, v) ==
    LET p == Pos(main, k) q == Pos(hold, k) IN
    IF Has(main, k) THEN main' = [main EXCEPT ![p + 1] = <<k, v>>] /\ hold' = hold
    ELSE IF p + Near > Len(main) THEN main' = InsAt(main, p, <<k, v>>) /\ hold' = hold
    ELSE IF Has(hold, k) THEN hold' = [hold EXCEPT ![q + 1] = <<k, v, hold[q + 1][3]>>] /\ main' = main
    ELSE LET h == InsAt(hold, q, <<k, v, p>>) IN
         IF Len(h) = Cap THEN main' = Merge(main, h) /\ hold' = <<>>
         ELSE main' = main /\ hold' = h

Next ==
       \/ \E k \in Keys, v \in Vals : SetIn(k, v) /\ ghost' = Put(ghost, k, v)
       \/ \E k \in Keys :
            LET a == Merge(main, hold) IN
            /\ main' = IF Has(a, k) THEN DelAt(a, Pos(a, k)) ELSE a
            /\ hold' = <<>> /\ ghost' = Del(ghost, k)
       \/ main' = Merge(main, hold) /\ hold' = <<>> /\ ghost' = ghost

All == Merge(main, hold)
Refines ==
    /\ IsVisit(ghost, [j \in 1..Len(All) |-> All[j][1]], [j \in 1..Len(All) |-> All[j][2]], LAMBDA a, b : a < b)
    /\ \A k \in Keys : Lookup(ghost, k) =
         IF Has(main, k) THEN main[Pos(main, k) + 1][2]
         ELSE IF Has(hold, k) THEN hold[Pos(hold, k) + 1][2] ELSE NONE
=============================================================================
