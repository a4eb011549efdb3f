------------------------------ MODULE OdbTrace ------------------------------
(* Is a recorded history one of ObjectStore's behaviours?  Every line of    *)
(* the file is a history; the moments at which writes and git's changes     *)
(* take effect are not recorded but found by TLC.                           *)
EXTENDS ObjectStore, Sequences, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.CASES)

TThreads == 1..6
TObjects == 1..9
TPacks == 1..9

VARIABLES l, i, g

tvars == <<vars, l, i, g>>

Idle == [e |-> "none"]
Ev == Traces[l].ev[i]
Range(s) == {s[k] : k \in 1..Len(s)}

TInit ==
    /\ l \in 1..Len(Traces)
    /\ i = 1
    /\ g = Idle
    /\ loose = {} /\ packs = [p \in Packs |-> {}] /\ held = {} /\ pend = [t \in Threads |-> None]

Store == UNCHANGED vars

Consume ==
    /\ i <= Len(Traces[l].ev)
    /\ i' = i + 1 /\ l' = l
    /\ CASE Ev.e = "call" -> CallMoved(Ev.t, Ev.op, Ev.o, Ev.fresh, IF g.e = "command" THEN 1 ELSE 0) /\ g' = g
         [] Ev.e = "ret" -> Ret(Ev.t, Ev.r) /\ Ev.touched /\ g' = g
         [] Ev.e = "fault" -> Fault(Ev.t) /\ g' = g
         [] Ev.e = "crash" -> Crash(Ev.t) /\ g' = g
         [] Ev.e = "probe" -> /\ Ev.r = IF Ev.o \in Stored THEN "complete" ELSE "absent"
                              /\ Store /\ g' = g
         [] Ev.e = "git" -> g = Idle /\ g' = Ev /\ Store
         [] Ev.e = "command" -> g = Idle /\ g' = Ev /\ Command
         [] Ev.e = "exit" -> g.e = "command" /\ g' = Idle /\ Store
         [] Ev.e = "gitdone" -> g = Idle /\ g' = g /\ Store

\* What is not recorded
Silent ==
    /\ i <= Len(Traces[l].ev)
    /\ UNCHANGED <<l, i>>
    /\ \/ \E t \in Threads : pend[t].op = "write" /\ pend[t].obj \notin loose /\ Commit(t) /\ g' = g
       \/ /\ g.e = "git" /\ g' = Idle
          /\ CASE g.a = "loose" -> AddLoose(Range(g.s))
               [] g.a = "prune" -> RemoveLoose(Range(g.s))
               [] g.a = "pack" -> AddPack(g.p, Range(g.s))
               [] g.a = "drop" -> RemovePack(g.p)

Finish ==
    /\ i = Len(Traces[l].ev) + 1
    /\ i' = i + 1
    /\ UNCHANGED <<vars, l, g>>
    /\ PrintT("OK " \o ToString(l) \o " " \o Traces[l].src)

TNext == Consume \/ Silent \/ Finish
TSpec == TInit /\ [][TNext]_tvars

\* A trace which is not finished has not been accepted
Done == TLCGet("diameter") >= 0 /\ PrintT("CHECKED " \o ToString(Len(Traces)))
=============================================================================
