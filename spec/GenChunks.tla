------------------------------ MODULE GenChunks ------------------------------
(* What the system does to the read calls of an operation: a sequence of    *)
(* steps which is repeated. A step delivers 1, 2, 3 or 19 bytes, a half,    *)
(* all but one or all of what was asked for, or interrupts the call.        *)
(* Endless interruption is excluded: nothing could ever be read.            *)
EXTENDS Json, IOUtils, CSV, TLC, Sequences, Naturals

CONSTANT Max

VARIABLE x

Steps == {"intr", "1", "2", "3", "19", "half", "less", "all"}
Plans == {p \in UNION {[1..k -> Steps] : k \in 1..Max} : \E i \in DOMAIN p : p[i] # "intr"}

\* A plan which only repeats a shorter one is left out
Repeats(p) == \E k \in 1..(Len(p) - 1) : (Len(p) % k) = 0 /\ \A i \in 1..(Len(p) - k) : p[i] = p[i + k]

Spec == x \in {p \in Plans : ~Repeats(p)} /\ [][FALSE /\ x' = x]_x

Progress == \E i \in DOMAIN x : x[i] # "intr"
Emit == CSVWrite("%1$s", <<ToJson([plan |-> x])>>, IOEnv.OUT)
=============================================================================
