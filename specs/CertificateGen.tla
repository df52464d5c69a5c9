--------------------------- MODULE CertificateGen ---------------------------
(* Every certificate with one name against every host name, and every short   *)
(* text as an address, over small alphabets.                                  *)
EXTENDS Certificate, TLC, Json
CONSTANTS NameChars, HostChars, MaxName, MaxHost, IpChars, MaxIp
VARIABLES k, v
RECURSIVE Strings(_, _)
Strings(S, n) == IF n = 0 THEN {<<>>} ELSE LET r == Strings(S, n - 1) IN r \cup {Append(x, c) : x \in {y \in r : Len(y) = n - 1}, c \in S}
Hosts == Strings(HostChars, MaxHost) \ {<<>>}
Init == \/ k = "n" /\ v \in Strings(NameChars, MaxName) \ {<<>>}
        \/ k = "a" /\ v \in Strings(IpChars, MaxIp)
Next == FALSE /\ UNCHANGED <<k, v>>

(* only names really contained are good *)
Laws == k = "n" => \A h \in Hosts : Wild(v, h) => /\ Len(h) >= Len(v) - 1
                                                 /\ ~ \E j \in 1 .. Len(v) : v[j] = 0
Cert == [dns |-> <<v>>, cn |-> <<>>, ip |-> <<>>]
Emit == IF k = "n"
        THEN PrintT("@@" \o ToJson([k |-> k, v |-> v, exact |-> {h \in Hosts : MatchName(Cert, h, FALSE)},
                                    wild |-> {h \in Hosts : MatchName(Cert, h, TRUE)}, san |-> {h \in Hosts : MatchSan(Cert, h)}]))
        ELSE PrintT("@@" \o ToJson([k |-> k, v |-> v, four |-> Ip4(v), six |-> Ip6(v)]))
=============================================================================
