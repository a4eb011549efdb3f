------------------------------ MODULE GenPack ------------------------------
(* All packs of N entries whose deltas point anywhere in the pack: checks   *)
(* that every object resolves to its chain of bases and cycles are errors,  *)
(* and writes the packs as cases.                                           *)
EXTENDS PackFormat, Json, IOUtils, CSV

CONSTANT N

VARIABLE x

Ents == 1..N
\* to: the base; ofs deltas point backwards only
Choices(i) == {[t |-> "base", to |-> 0]} \cup {[t |-> "ofs", to |-> j] : j \in 1..(i - 1)} \cup {[t |-> "ref", to |-> j] : j \in Ents}
Perms == {[i \in Ents |-> i], [i \in Ents |-> N + 1 - i]}
Graphs == {g \in [Ents -> UNION {Choices(i) : i \in Ents}] : \A i \in Ents : g[i] \in Choices(i)}

\* Contents: <<100, i>> for a base; a delta keeps the second byte of its base and adds i
Data(g, i) == IF g[i].t = "base" THEN <<100, i>> ELSE <<2, 2, 128 + 1 + 16, 1, 1, 1, i>>
IdOf(perm, i) == [k \in 1..20 |-> IF k = 1 THEN 50 * perm[i] ELSE i]
Header(g, i) == IF g[i].t = "base" THEN PrintHeader(3, 2) ELSE PrintHeader(IF g[i].t = "ofs" THEN 6 ELSE 7, 7)

\* For checking the specification only: entries of 1000 bytes
At0(i) == 12 + 1000 * (i - 1)
Pack(y) == [entries |-> [i \in Ents |-> [off |-> <<0, At0(i)>>, hdr |-> Header(y.g, i), data |-> Data(y.g, i), z |-> "ok",
              ext |-> CASE y.g[i].t = "base" -> <<>> [] y.g[i].t = "ofs" -> PrintOfs(At0(i) - At0(y.g[i].to))
                        [] y.g[i].t = "ref" -> IdOf(y.p, y.g[i].to)]]]
PackList(y) == [i \in Ents |-> [id |-> ToHex(IdOf(y.p, i)), off |-> <<0, At0(i)>>]]

RECURSIVE Last2(_, _, _)       \* what the second byte of entry i is, 0 on a cycle
Last2(g, i, n) == IF n = 0 THEN 0 - 1
                  ELSE IF g[i].t = "base" THEN i
                  ELSE IF Last2(g, g[i].to, n - 1) = 0 - 1 THEN 0 - 1 ELSE i
First(g, i) == IF g[i].t = "base" THEN 100
               ELSE IF g[g[i].to].t = "base" THEN g[i].to ELSE g[i].to

Spec == x \in [g : Graphs, p : Perms] /\ [][FALSE /\ x' = x]_x

Resolves == \A i \in Ents :
    LET r == ReadAt(Pack(x), PackList(x), <<0, At0(i)>>) IN
    IF Last2(x.g, i, N + 1) = 0 - 1 THEN r.r = "err"
    ELSE r = [r |-> "ok", kind |-> "blob", body |-> <<First(x.g, i), i>>]

Emit == CSVWrite("%1$s", <<ToJson([k |-> "graph",
          ents |-> [i \in Ents |-> [t |-> x.g[i].t, to |-> x.g[i].to, hdr |-> Header(x.g, i), data |-> Data(x.g, i), id |-> ToHex(IdOf(x.p, i))]]])>>, IOEnv.OUT)
=============================================================================
