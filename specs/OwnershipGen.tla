---------------------------- MODULE OwnershipGen ----------------------------
(* Histories of a careful caller: all short ones, or random long ones when    *)
(* run in simulation mode.                                                    *)
EXTENDS Ownership, TLC, Json
CONSTANTS Depth, MaxObj, Random, Prepared
VARIABLES st, h, n
Z == [f |-> "", k |-> "", a |-> 0, b |-> 0, l |-> 0, n |-> 0]
New(k) == [Z EXCEPT !.f = "new", !.k = k]
Res(a) == [Z EXCEPT !.f = "res", !.a = a]
App(l, a) == [Z EXCEPT !.f = "app", !.l = l, !.a = a]
MSet(l, v, a) == [Z EXCEPT !.f = "mset", !.l = l, !.n = v, !.a = a]
Pr(a, b) == [Z EXCEPT !.f = "pair", !.a = a, !.b = b]
Wr(k, a) == [Z EXCEPT !.f = "wrap", !.k = k, !.a = a]
(* beginnings in which containers hold containers and share their contents *)
Setups == IF ~ Prepared THEN {<<>>} ELSE {
    <<New("K"), New("i"), App(1, 2), New("l"), New("s"), App(3, 4), Res(1), App(3, 1)>>,
    <<New("M"), New("s"), MSet(1, 1, 2), New("l"), New("d"), App(4, 5), Res(1), App(4, 1)>>,
    <<New("l"), New("t"), Res(2), Res(2), App(1, 2), App(1, 2)>>,
    <<New("L"), New("b"), Res(2), App(1, 2), New("K"), New("c"), App(3, 4), Res(3), App(1, 3)>>,
    <<New("m"), New("l"), New("g"), App(2, 3), Res(2), MSet(1, 1, 2), New("S"), MSet(1, 2, 5)>>,
    <<New("K"), New("i"), App(1, 2), Res(1), New("s"), Pr(1, 3), New("l"), Res(4), App(5, 4)>>,
    <<New("K"), New("d"), App(1, 2), Res(1), Wr("r", 1), New("S"), Res(3)>>,
    <<New("l"), New("K"), New("T"), App(2, 3), App(1, 3), Res(2), App(1, 2), Wr("R", 1)>>}
After(sq) == FoldLeft(LAMBDA a, e : CHOOSE b \in Outcomes(a, e) : TRUE, Start, sq)
Init == /\ h \in Setups
        /\ st = After(h)
        /\ n = Depth
Go(e) == IF Refuses(st, e) THEN st' = Refused(st, e) ELSE st' \in Outcomes(st, e)
(* a random history takes the kind of call first, so that rare kinds occur *)
Pick(cs) == LET f == RandomElement({e.f : e \in cs}) IN RandomElement({e \in cs : e.f = f})
Next == n > 0 /\ n' = n - 1 /\ \E e \in (IF Random THEN {Pick(Calls(st, MaxObj))} ELSE Calls(st, MaxObj)) : Go(e) /\ h' = Append(h, e)
(* sanity of the specification: counts are what the holders add up to *)
Holders(x) == st.o[x].own + Cardinality({q \in (1 .. Len(st.o)) \X (1 .. 40) : q[2] <= Len(st.o[q[1]].slots) /\ st.o[q[1]].slots[q[2]] = x})
Counted == \A x \in 1 .. Len(st.o) : Const(st.o[x].k) \/ st.o[x].refs = Holders(x)
Emit == n = 0 => PrintT("@@" \o ToJson(h))
=============================================================================
