---------------------------- MODULE EffectsTrace ----------------------------
(* Judges recorded histories: after each operation the files are compared   *)
(* with those before.                                                       *)
EXTENDS Effects, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.CASES)
VARIABLES l, i

Range(s) == {s[k] : k \in 1..Len(s)}
Map(s) == [p \in {s[k].p : k \in 1..Len(s)} |-> s[CHOOSE k \in 1..Len(s) : s[k].p = p].d]

TInit == l \in 1..Len(Traces) /\ i = 1 /\ tree = Map(Traces[l].first)

Ev == Traces[l].ev[i]
New == LET m == Map(Ev.new)
           G == Range(Ev.gone)
       IN  [p \in (DOMAIN tree \ G) \cup DOMAIN m |-> IF p \in DOMAIN m THEN m[p] ELSE tree[p]]

Step ==
    /\ i <= Len(Traces[l].ev)
    /\ i' = i + 1 /\ l' = l
    /\ tree' = New
    /\ Ev.muts = <<>>
    /\ IF Ev.op = "write" THEN Write(Ev.repo, Ev.id, New, Range(Ev.touched), Ev.stuck) ELSE Read(New, Range(Ev.touched))
    /\ Ev.r # "panic"

Finish ==
    /\ i = Len(Traces[l].ev) + 1
    /\ i' = i + 1
    /\ UNCHANGED <<tree, l>>
    /\ PrintT("OK " \o ToString(l) \o " " \o Traces[l].src)

TSpec == TInit /\ [][Step \/ Finish]_<<tree, l, i>>
Done == TLCGet("diameter") >= 0 /\ PrintT("CHECKED " \o ToString(Len(Traces)))
=============================================================================
