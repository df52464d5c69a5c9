------------------------------ MODULE HistUtil ------------------------------
(* Progress of a search that explains a history: register 1 holds the         *)
(* furthest event reached (one worker).                                       *)
EXTENDS TraceUtil

ASSUME TLCSet(1, 0)
Progress(i) == IF i > TLCGet(1) THEN TLCSet(1, i) ELSE TRUE
Explained == IF TLCGet(1) > Len(Trace) THEN TRUE
             ELSE PrintT("@REJECTED " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
