------------------------------- MODULE Helpers ------------------------------
(* Sleeping for a number of milliseconds, and naming threads.                 *)
EXTENDS Integers, Sequences
(* a duration as <<seconds, milliseconds within, nanoseconds within>> *)
Sleep(ms) == <<ms \div 1000, ms % 1000, 0>>
Most == 15      \* characters of a thread name
Fits(text) == Len(text) <= Most
=============================================================================
