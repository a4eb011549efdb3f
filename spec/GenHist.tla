------------------------------ MODULE GenHist ------------------------------
(* All sequential histories of Len steps over ObjectStore: writes, reads    *)
(* through an old and a new handle, and what git does in between.           *)
EXTENDS ObjectStore, Sequences, Json, IOUtils, CSV

CONSTANT Length

VARIABLE hist

HInit == loose = {} /\ packs = [p \in Packs |-> {}] /\ held = {} /\ pend = [t \in Threads |-> None] /\ hist = <<>>

\* Operations happen at once here: Call, Commit and Ret in one step
Set(l, pk) == loose' = l /\ packs' = pk /\ held' = held \cup InPacks(pk) /\ UNCHANGED pend

Full == {p \in Packs : packs[p] # {}}
Free == {p \in Packs : packs[p] = {}}
Do(s) == hist' = Append(hist, s)

HNext ==
    /\ Len(hist) < Length
    /\ \/ \E o \in Objects : Set(loose \cup {o}, packs) /\ Do(<<"write", o>>)
       \/ \E o \in Objects, f \in {"read", "fresh"} : Set(loose, packs) /\ Do(<<f, o>>)
       \/ \E o \in Objects : o \notin Stored /\ Set(loose \cup {o}, packs) /\ Do(<<"git", o>>)
       \/ loose # {} /\ Free # {} /\ LET p == CHOOSE p \in Free : TRUE IN Set({}, [packs EXCEPT ![p] = loose]) /\ Do(<<"pack", 1>>)
       \/ loose # {} /\ Free # {} /\ LET p == CHOOSE p \in Free : TRUE IN Set(loose, [packs EXCEPT ![p] = loose]) /\ Do(<<"copy", 1>>)
       \/ loose \cap InPacks(packs) # {} /\ Set(loose \ InPacks(packs), packs) /\ Do(<<"prune", 1>>)
       \/ Full # {} /\ Set(loose \cup InPacks(packs), [p \in Packs |-> {}]) /\ Do(<<"unpack", 1>>)
       \/ Cardinality(Full) > 1 /\ LET p == CHOOSE p \in Full : TRUE IN Set(loose, [q \in Packs |-> IF q = p THEN InPacks(packs) ELSE {}]) /\ Do(<<"repack", 1>>)
       \/ \E o \in Objects : o \in Stored /\ Copies(o) = 1 /\ o \in loose /\ Set(loose \ {o}, packs) /\ Do(<<"delete", o>>)
       \/ Set(loose, packs) /\ Do(<<"tick", 0>>)

HSpec == HInit /\ [][HNext]_<<vars, hist>>

Worth == \E k \in 1..Len(hist) : hist[k][1] \in {"write", "read", "fresh"}
Emit == Len(hist) = Length /\ Worth => CSVWrite("%1$s", <<ToJson([k |-> "hist", hist |-> hist])>>, IOEnv.OUT)
=============================================================================
