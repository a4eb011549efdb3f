------------------------------ MODULE GenRefs ------------------------------
(* References for the real code: every way in which three references can    *)
(* refer to each other, and chains of all lengths with every end.           *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, CSV, TLC

VARIABLE x

Dir(o) == [k |-> "dir", o |-> o]
Sym(n) == [k |-> "sym", n |-> n]
Link(n) == [k |-> "link", n |-> n]
Bad == [k |-> "bad"]
Absent == [k |-> "absent"]

\* Object 1 exists, object 2 does not
Contents == {Absent, Bad, Dir(1), Dir(2), Sym(1), Sym(2), Sym(3), [k |-> "peel", o |-> 1, n |-> 3], [k |-> "peel", o |-> 2, n |-> 2],
             Link(2), Link(3)}
Graphs == [1..3 -> Contents]

Ends(n) == {Absent, Bad, Dir(1), Dir(2), [k |-> "peel", o |-> 1, n |-> 1]} \cup {Sym(m) : m \in 1..n}
Chain(n, c) == [m \in 1..n |-> IF m = n THEN c ELSE Sym(m + 1)]
\* Some of its references are links of the file system
Links(c) == {[m \in DOMAIN c |-> IF m \in S THEN Link(m + 1) ELSE c[m]] : S \in {T \in SUBSET {m \in DOMAIN c : m < Len(c)} : Cardinality(T) \in {0, 2}}}
Chains == UNION {UNION {Links(Chain(n, c)) : c \in Ends(n) \ {Sym(m) : m \in 2..n}} \cup {Chain(n, c) : c \in Ends(n)} : n \in 1..9}

Spec == x \in Graphs \cup Chains /\ [][FALSE /\ x' = x]_x

\* The model which judges what is found agrees with a direct definition
R == INSTANCE Refs WITH Threads <- {1}, IsUnder <- LAMBDA n, d : TRUE,
        files <- x, stored <- {1}, pend <- [t \in {1} |-> [op |-> "none"]]
RECURSIVE Reach(_, _)
Reach(n, k) ==
    IF k = 0 THEN Sym(n)
    ELSE LET c == IF n \in DOMAIN x THEN x[n] ELSE Absent IN
         IF c.k \in {"sym", "link"} THEN Reach(c.n, k - 1) ELSE c
Agree == \A n \in DOMAIN x :
    LET c == Reach(n, 30)
        f == R!Follow(Sym(n), 0)
    IN  f.r \in CASE c.k = "sym" -> {"loop", "bad"} [] c.k = "absent" -> {"nf"} [] c.k = "bad" -> {"bad"} [] OTHER -> IF c.o = 1 THEN {"obj"} ELSE {"onf"}

Emit == CSVWrite("%1$s", <<ToJson([k |-> "graph", files |-> x])>>, IOEnv.OUT)
=============================================================================
