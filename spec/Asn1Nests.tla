------------------------------ MODULE Asn1Nests ------------------------------
(* Texts that are nested or repeated, deeper and deeper.                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds, Limit
VARIABLES kind, depth
vars == <<kind, depth>>
Init == kind \in Kinds /\ depth = 1
Next == 2 * depth <= Limit /\ (depth' = 2 * depth \/ depth' = 2 * depth + 1) /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
\* The depths around a power of two, and a few others.
Shown == \/ \E k \in 0..20 : depth \in {2^k - 1, 2^k, 2^k + 1}
         \/ depth % 37 = 1 /\ depth < 300
Told == Shown => PrintT("N " \o ToJson([k |-> kind, d |-> depth]))
=============================================================================
