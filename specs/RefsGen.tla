------------------------------- MODULE RefsGen -------------------------------
(* What threads that share an object may do: each starts with one reference,  *)
(* uses the object only while it holds one, and gives back all it took.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, MaxThreads
Steps == {"r", "u", "d"}
RECURSIVE Level(_, _)
Level(w, n) == IF n = 0 THEN 1
               ELSE LET x == Level(w, n - 1) IN
                    IF x <= 0 THEN -1 ELSE IF w[n] = "r" THEN x + 1 ELSE IF w[n] = "d" THEN x - 1 ELSE x
Lives == UNION {{w \in [1 .. n -> Steps] : Level(w, n) = 0} : n \in 1 .. MaxLen}
Kinds == {"c", "f", "i", "d", "t", "s", "g", "b", "p", "l", "m"}
VARIABLE p
Init == p \in UNION {[k : Kinds, th : [1 .. n -> Lives]] : n \in 2 .. MaxThreads}
Next == FALSE /\ p' = p
Emit == PrintT("@@" \o ToJson(p))
=============================================================================
