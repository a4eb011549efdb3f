------------------------------ MODULE CasesPack ------------------------------
(* Judges reads of packed and loose objects by the real code.               *)
(*  k = "pack": packs (see PackFormat), loose objects [id, full, z] and     *)
(*     queries [id, obs, raw]: what parsing (in several orders, through     *)
(*     fresh and used handles) and what reading the bytes gave              *)
(*  k = "wide": a pack of many objects, and queries [in, body, obs]         *)
(*  k = "chain": a base, deltas each upon the one before, queries [at, obs] *)
(*  k = "made": like "pack", but git made the files, and each query says     *)
(*     whether an object was stored, and which: [stored, kind, body]         *)
(*  k = "rope": one large base and one delta; contents by segment and hash  *)
EXTENDS PackFormat, CasesLib, SequencesExt

Lists(c) == [i \in 1..Len(c.packs) |-> Listed(c.packs[i].idx)]

\* All copies of an object; no copy: not found.  Nothing can be read from a
\* pack whose files are cut off (broken).
Copies(c, L, id) ==
    UNION {{IF c.packs[i].broken THEN Fail ELSE ReadAt(c.packs[i], L[i], L[i][k].off) :
              k \in {k \in 1..Len(L[i]) : L[i][k].id = id}} : i \in 1..Len(L)}

Suffix(a, b) == Len(a) >= Len(b) /\ SubSeq(a, Len(a) - Len(b) + 1, Len(a)) = b

Loose(c, id) == {k \in 1..Len(c.loose) : c.loose[k].id = id}

\* A loose object [id, full, z] observed as o
LooseOk(o, f) ==
    CASE o.r = "raw" -> (f.z \in {"ok", "tail"} => o.body = f.full) /\ f.z # "bad"
      [] o.r = "rawerr" -> f.z # "ok"
      [] o.r = "rawnf" -> FALSE
      [] OTHER -> IF f.z = "bad" THEN o.r = "err"
                  ELSE OutcomeOk(o, ParseLoose(f.full)) \/ (f.z \in {"cut", "tail"} /\ o.r = "err")

\* Some copy is stored intact, and none is intact without being an object
Intact(C, c, F) ==
    /\ \A x \in C : x.r \in {"ok", "may", "err"} /\ (x.r # "err" => ParseBody(x.kind, x.body).r = "ok")
    /\ \/ \E x \in C : x.r = "ok"
          \/ \E k \in F : c.loose[k].z = "ok" /\ ParseLoose(c.loose[k].full).r = "ok"

QueryOk(c, L, q) ==
    LET C == Copies(c, L, q.id)
        F == Loose(c, q.id)
        All == {q.obs[i] : i \in 1..Len(q.obs)} \cup {q.raw[i] : i \in 1..Len(q.raw)}
        AnyBroken == \E i \in 1..Len(c.packs) : c.packs[i].broken
        Allowed(o) ==
          \* an intact copy is found whatever the others are like
          IF Intact(C, c, F) THEN o.r \notin {"err", "rawerr", "nf", "rawnf"} /\ ((\E x \in C : ReadOk(o, x)) \/ \E k \in F : LooseOk(o, c.loose[k]))
          ELSE IF C = {} /\ F = {} THEN o.r \in {"nf", "rawnf"} \/ (AnyBroken /\ o.r \in {"err", "rawerr"})
          ELSE (\E x \in C : ReadOk(o, x)) \/ \E k \in F : LooseOk(o, c.loose[k])
    IN  \A o \in All : Allowed(o)

\* What git itself finds (q.git) fits the specification, too, where there is one copy
\* (git refuses deltas of fewer than four bytes, which may be parts of others)
GitFinds(C, q, tiny) ==
    \A x \in C : x.r = "ok" /\ (q.git.r = "ok" \/ ~tiny) => q.git.r = "ok" /\ q.git.kind = x.kind /\ q.git.body = x.body
GitOk(c, L, q) ==
    \/ "git" \notin DOMAIN q
    \/ q.id = [i \in 1..40 |-> 48]     \* stands for "no object" in git
    \/ Loose(c, q.id) # {} \/ \E i \in 1..Len(c.packs) : c.packs[i].broken
    \/ LET C == Copies(c, L, q.id) IN
       CASE Cardinality(C) = 1 -> GitFinds(C, q, \E i \in 1..Len(c.packs) : \E k \in 1..Len(c.packs[i].entries) :
                                                 c.packs[i].entries[k].ext # <<>> /\ Len(c.packs[i].entries[k].data) < 4)
         [] C = {} -> q.git.r = "none"
         [] OTHER -> TRUE

PackOk(c) ==
    LET L == Lists(c) IN
    /\ \A i \in 1..Len(c.packs) : WellFormedIndex(c.packs[i].idx)
    /\ \A i \in 1..Len(c.q) : QueryOk(c, L, c.q[i]) /\ GitOk(c, L, c.q[i])
    \* where the order must not matter, there is one result, unless copies differ which can both be read
    /\ "same" \in DOMAIN c => \A i \in 1..Len(c.q) :
         \/ Len(c.q[i].obs) <= 1 /\ Len(c.q[i].raw) <= 1
         \/ Cardinality({x \in Copies(c, L, c.q[i].id) : x.r # "err"}) + Cardinality(Loose(c, c.q[i].id)) > 1

\* What git made of the objects is, read by the specification, those objects
MadeOk(c) ==
    LET L == Lists(c) IN
    \A i \in 1..Len(c.q) :
      LET q == c.q[i]
          C == Copies(c, L, q.id)
          F == Loose(c, q.id)
      IN  IF q.stored THEN /\ C # {} \/ F # {}
                           /\ \A x \in C : x.r = "ok" /\ x.kind = q.kind /\ x.body = q.body
                           /\ \A k \in F : c.loose[k].z = "ok" /\ Suffix(c.loose[k].full, q.body)
          ELSE C = {} /\ F = {}

RopeOk(c) ==
    LET s == Segments(c.delta, c.base) IN
    IF s.r = "err" THEN \A i \in 1..Len(c.obs) : c.obs[i].r = "err"
    ELSE /\ s.segs = c.segs
         /\ \A i \in 1..Len(c.obs) : c.obs[i].r = "ok" /\ c.obs[i].sha = c.sha

WideOk(c) ==
    \A i \in 1..Len(c.q) :
      LET q == c.q[i] IN IF q.in THEN q.obs.r = "ok" /\ q.obs.body = q.body ELSE q.obs.r = "nf"

\* All contents of a chain, one delta after the other
ChainOk(c) ==
    LET Obs(k) == {c.q[i].obs : i \in {i \in 1..Len(c.q) : c.q[i].at = k}}
        Right(k, b) == \A o \in Obs(k) : o.r = "ok" /\ o.t = "blob" /\ o.data = b
        Step(a, d) == LET x == Apply(d, a.body)
                      IN  [k |-> a.k + 1, body |-> x.body, ok |-> a.ok /\ x.r = "ok" /\ Right(a.k + 1, x.body)]
    IN  FoldLeft(Step, [k |-> 0, body |-> c.base, ok |-> Right(0, c.base)], c.deltas).ok

Kind(c, L, q) ==
    LET C == Copies(c, L, q.id) IN
    IF C = {} THEN (IF Loose(c, q.id) = {} THEN "absent" ELSE "loose")
    ELSE LET x == CHOOSE x \in C : TRUE IN x.r \o (IF x.r = "ok" THEN "-" \o x.kind ELSE "")

\* the first query stands for the case
Class(c) == IF c.k \in {"wide", "chain"} THEN c.k ELSE IF c.k = "rope" THEN c.src \o "/rope-" \o Segments(c.delta, c.base).r
            ELSE c.src \o "/" \o Kind(c, Lists(c), c.q[1])

Next == LET c == Cases[l] IN NextCase(IF c.k = "wide" THEN WideOk(c) ELSE IF c.k = "chain" THEN ChainOk(c) ELSE IF c.k = "rope" THEN RopeOk(c) ELSE PackOk(c) /\ (c.k = "made" => MadeOk(c)), Class(c))
Spec == Init /\ [][Next]_l
=============================================================================
