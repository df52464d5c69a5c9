----------------------------- MODULE MonitorGen -----------------------------
(* Every short program of the owner of a monitor. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxNotifiers
Steps == {"b", "w", "s", "d"}
VARIABLE p
Count(x) == Cardinality({k \in 1 .. Len(p) : p[k] \in x})
Init == p \in UNION {[1 .. n -> Steps] : n \in 1 .. MaxLen}
Next == FALSE /\ p' = p
(* Every notification has arrived when the last wait returns if each was     *)
(* asked for after re-arming and waited for at once: then the owner may give  *)
(* the monitor up, although the notifier has perhaps not returned yet.        *)
Rounds(k) == [j \in 1 .. 3 * k - 1 |-> CASE j % 3 = 1 -> "s" [] j % 3 = 2 -> "w" [] OTHER -> "b"]
Settled(q) == \E k \in 1 .. MaxNotifiers : q = Rounds(k)
GivenUp == Settled(p) => PrintT("@@" \o ToJson(Append(p, "x")))
Emit == Count({"s", "d"}) \in 1 .. MaxNotifiers /\ Count({"w"}) > 0 => PrintT("@@" \o ToJson(p))
=============================================================================
