------------------------------- MODULE Prompt -------------------------------
(* Where a password comes from.  One that is given and not empty is taken as  *)
(* it is; otherwise the next typed line is.  Either is cut to the room there  *)
(* is, a zero byte ends it, and what was not read of a line that is too long  *)
(* is still there for the next question.  While a line is being typed the     *)
(* terminal does not show it; before and after it does.                       *)
EXTENDS Integers, Sequences

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Cut(t, room) == IF Len(t) <= room THEN t ELSE SubSeq(t, 1, room)
Line(input, room) ==    (* how many are read *)
    LET ends == {k \in 1..Len(input) : input[k] = 10} IN
    Least({room, Len(input)} \cup ends)
Plain(t) ==    (* without the line end, up to a zero byte *)
    LET u == IF t /= <<>> /\ t[Len(t)] = 10 THEN SubSeq(t, 1, Len(t) - 1) ELSE t
        zeros == {k \in 1..Len(u) : u[k] = 0}
    IN IF zeros = {} THEN u ELSE SubSeq(u, 1, Least(zeros) - 1)

(* outcome of a question: the password and what is left of the input *)
Ask(input, given, size) ==
    IF given /= <<>> THEN [p |-> Cut(given, size - 1), rest |-> input]
    ELSE LET n == Line(input, size - 1) IN
         [p |-> Plain(SubSeq(input, 1, n)), rest |-> SubSeq(input, n + 1, Len(input))]
=============================================================================
