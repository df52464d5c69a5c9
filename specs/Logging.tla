------------------------------ MODULE Logging -------------------------------
(* The global log: a level and at most one receiver (0: none).  A message is  *)
(* delivered when there is a receiver and its level is not above the set one. *)
EXTENDS Integers, Sequences
Names == <<"ERROR", "WARN", "INFO", "DEBUG", "TRACE">>
Fresh == [level |-> 2, to |-> 0]
Enabled(s, l) == s.to # 0 /\ l <= s.level
Delivered(s, l, text, line) == IF Enabled(s, l) THEN <<[c |-> s.to, l |-> l, m |-> text, line |-> line, func |-> "say"]>> ELSE <<>>
=============================================================================
