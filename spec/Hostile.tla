------------------------------- MODULE Hostile -------------------------------
(* Reading an object from a pack whose entries may lie about everything:    *)
(* each is a full object or a delta of some entry, of something which does  *)
(* not exist or of what is not in the file, and declares a length which may *)
(* be wrong. Walking down and back up the chain has to end and must not     *)
(* need more memory than there is data.                                     *)
(* Every case is also written down, to be built and read with the library.  *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, CSV, TLC

CONSTANTS Entries, Bug

Huge == 1000

VARIABLES
    base,   \* entry -> "none", another entry, "gone", "out"
    link,   \* entry -> how the base is given: "ofs", "ref"
    decl,   \* entry -> declared length: "right", "less", "more", "huge"
    asked,  \* the entry which is read
    pc, cur, chain, mem, out

vars == <<base, link, decl, asked, pc, cur, chain, mem, out>>

Bases == {"none", "gone", "out"} \cup Entries
Decls == {"right", "less", "more", "huge"}
Len1(d) == CASE d = "right" -> 2 [] d = "less" -> 1 [] d = "more" -> 3 [] d = "huge" -> Huge
Actual == 2

Min(a, b) == IF a < b THEN a ELSE b
Range(s) == {s[i] : i \in DOMAIN s}

Init ==
    /\ base \in [Entries -> Bases]
    /\ link \in {f \in [Entries -> {"ofs", "ref"}] :
                   \A e \in Entries : (base[e] = "none" => f[e] = "ref") /\ (base[e] = "gone" => f[e] = "ref") /\ (base[e] = "out" => f[e] = "ofs")}
    /\ decl \in {f \in [Entries -> Decls] : Cardinality({e \in Entries : f[e] # "right"}) <= 1}
    /\ asked \in Entries
    /\ pc = "down" /\ cur = asked /\ chain = <<>> /\ mem = 0 /\ out = "none"

Stop(r) == pc' = "end" /\ out' = r /\ UNCHANGED <<cur, chain, mem>>

Down ==
    /\ pc = "down"
    /\ CASE cur = "gone" -> Stop("err")
         [] cur = "out" -> Stop("err")
         [] cur \in Range(chain) /\ Bug # "loops" -> Stop("err")
         [] OTHER ->
              /\ chain' = Append(chain, cur)
              /\ mem' = mem + 1
              /\ out' = out
              /\ IF base[cur] = "none" THEN pc' = "up" /\ cur' = cur ELSE pc' = "down" /\ cur' = base[cur]
    /\ UNCHANGED <<base, link, decl, asked>>

\* The data of the last entry is inflated, and applied to what there is
Up ==
    /\ pc = "up"
    /\ LET e == chain[Len(chain)]
           d == Len1(decl[e])
           need == IF Bug = "trust" THEN d ELSE Min(d, Actual + 1)
       IN  IF d # Actual THEN pc' = "end" /\ out' = "err" /\ mem' = mem + need /\ UNCHANGED <<cur, chain>>
           ELSE /\ mem' = mem + 2 * need
                /\ chain' = SubSeq(chain, 1, Len(chain) - 1)
                /\ cur' = cur
                /\ IF Len(chain) = 1 THEN pc' = "end" /\ out' = "ok" ELSE pc' = pc /\ out' = out
    /\ UNCHANGED <<base, link, decl, asked>>

Next == Down \/ Up
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(pc = "end")
\* Data: two units per entry
Proportion == mem <= 5 * (1 + Actual) * Cardinality(Entries)
Short == Len(chain) <= Cardinality(Entries)

\* Entries in the order in which they are read
RECURSIVE Walk(_, _)
Walk(e, seen) == IF e \notin Entries THEN e ELSE IF e \in seen THEN "loop" ELSE IF base[e] = "none" THEN "none" ELSE Walk(base[e], seen \cup {e})
Touched(e) == LET R[n \in 0..Cardinality(Entries)] == IF n = 0 THEN {e} ELSE R[n - 1] \cup {base[x] : x \in R[n - 1] \cap Entries} IN R[Cardinality(Entries)] \cap Entries
Right == pc = "end" => (out = "ok" <=> Walk(asked, {}) = "none" /\ \A e \in Touched(asked) : decl[e] = "right")

Emit == (pc = "down" /\ chain = <<>> /\ asked = CHOOSE e \in Entries : TRUE)
           => CSVWrite("%1$s", <<ToJson([k |-> "graph", base |-> base, link |-> link, decl |-> decl])>>, IOEnv.OUT)
=============================================================================
