------------------------------ MODULE RefsTrace ------------------------------
(* Is a recorded history one of Refs' behaviours?  Every line of the file   *)
(* is a history. Names are sequences of bytes. When an operation looked at  *)
(* a file is not recorded but found by TLC.                                 *)
EXTENDS Refs, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.CASES)

TThreads == 1..5

SLASH == 47
sLock == <<46, 108, 111, 99, 107>>
EndsWith(n, s) == Len(n) >= Len(s) /\ SubSeq(n, Len(n) - Len(s) + 1, Len(n)) = s
TUnder(n, d) ==
    /\ Len(n) > Len(d) + 1
    /\ SubSeq(n, 1, Len(d) + 1) = Append(d, SLASH)
    /\ ~EndsWith(n, sLock)

VARIABLES l, i, g, got

tvars == <<rvars, l, i, g, got>>

NoEvent == [e |-> "none"]
Ev == Traces[l].ev[i]

TInit ==
    /\ l \in 1..Len(Traces)
    /\ i = 1
    /\ g = NoEvent
    /\ got = [t \in Threads |-> Absent]
    /\ files = [n \in {} |-> Absent] /\ stored = {} /\ pend = [t \in Threads |-> Idle]


Consume ==
    /\ i <= Len(Traces[l].ev)
    /\ i' = i + 1 /\ l' = l
    /\ CASE Ev.e = "init" ->
              /\ files' = [n \in {f.n : f \in Range(Ev.files)} |-> (CHOOSE f \in Range(Ev.files) : f.n = n).c]
              /\ stored' = Range(Ev.stored)
              /\ UNCHANGED <<pend, g, got>>
         [] Ev.e = "get" -> CallGet(Ev.t, Ev.n) /\ UNCHANGED <<g, got>>
         [] Ev.e = "peel" -> CallPeel(Ev.t, got[Ev.t]) /\ UNCHANGED <<g, got>>
         [] Ev.e = "given" -> got' = [got EXCEPT ![Ev.t] = Ev.c] /\ UNCHANGED <<rvars, g>>
         [] Ev.e = "list" -> CallList(Ev.t, Range(Ev.dirs)) /\ UNCHANGED <<g, got>>
         [] Ev.e = "ret" ->
              /\ Ret(Ev.t, Ev.r)
              /\ got' = IF pend[Ev.t].op = "get" /\ Ev.r.r = "ok" THEN [got EXCEPT ![Ev.t] = Ev.r.c] ELSE got
              /\ g' = g
         [] Ev.e = "fault" -> Fault(Ev.t) /\ UNCHANGED <<g, got>>
         [] Ev.e \in {"set", "obj"} -> g = NoEvent /\ g' = Ev /\ UNCHANGED <<rvars, got>>
         [] Ev.e = "done" -> g = NoEvent /\ UNCHANGED <<rvars, g, got>>

\* What is not recorded
Unrecorded ==
    /\ i <= Len(Traces[l].ev)
    /\ UNCHANGED <<l, i, got>>
    /\ \/ \E t \in Threads : (Look(t) \/ Hop(t) \/ Arrive(t)) /\ g' = g
       \/ /\ g # NoEvent /\ g' = NoEvent
          /\ IF g.e = "set" THEN SetFile(g.n, g.c) ELSE SetObject(g.o, g.has)

Finish ==
    /\ i = Len(Traces[l].ev) + 1
    /\ i' = i + 1
    /\ UNCHANGED <<rvars, l, g, got>>
    /\ PrintT("OK " \o ToString(l) \o " " \o Traces[l].src)

TNext == Consume \/ Unrecorded \/ Finish
TSpec == TInit /\ [][TNext]_tvars

\* A trace which is not finished has not been accepted
Done == TLCGet("diameter") >= 0 /\ PrintT("CHECKED " \o ToString(Len(Traces)))
=============================================================================
