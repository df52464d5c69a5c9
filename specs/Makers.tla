------------------------------- MODULE Makers -------------------------------
(* Making objects while one allocation fails.  An object made for number n    *)
(* shows Content(kind, n); if its allocation fails it is not made and nothing *)
(* is held for it.  State: the numbers of the objects alive, per slot.        *)
EXTENDS Integers, Sequences
Kinds == {"integer", "double", "boolean", "string", "strdup", "wlen", "geojson", "geodup", "bytes", "wrap", "pair",
          "rec", "stream", "timer", "result", "success", "failure", "aerospike", "block", "vector", "array",
          "listiter", "mapiter", "lliter", "pool", "msgpack",
          "mtqueue", "mtinit", "cfqueue", "cfinit"}
(* what an object shows *)
Content(k, n) ==
    CASE k = "boolean" -> <<n % 2>>
      [] k = "pair" -> <<n, n + 1>>
      [] k = "result" -> <<0, 0>>
      [] k = "success" -> <<1, n>>
      [] k = "failure" -> <<0, n>>
      [] k \in {"vector", "array", "listiter", "lliter", "mtqueue", "mtinit", "cfqueue", "cfinit"} -> [j \in 1 .. n |-> j]
      [] k = "mapiter" -> [j \in 1 .. 2 * n |-> IF j % 2 = 1 THEN (j + 1) \div 2 ELSE n + j \div 2]
      [] k = "pool" -> <<n, 2 * n>>       \* threads, tasks executed
      [] OTHER -> <<n>>
(* s: slot |-> <<kind, n>> or <<>> when nothing is there *)
Make(s, e, made) == IF made THEN [s EXCEPT ![e.i] = <<e.k, e.n>>] ELSE s
=============================================================================
