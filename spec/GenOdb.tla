------------------------------- MODULE GenOdb -------------------------------
(* Behaviours of OdbImpl as schedules: which thread or git acts next.       *)
(* For simulation.                                                          *)
EXTENDS OdbImpl, Sequences, Json, IOUtils, CSV

VARIABLE hist

GInit == Init /\ hist = <<[k |-> "init", loose |-> LooseOf(target), folder |-> {o \in Objects : folder[o]}, content |-> content, disk |-> disk, cache |-> cache, recent |-> recent]>>

Do(s) == hist' = Append(hist, s)
T(t, l) == Do([k |-> "step", t |-> t, l |-> l])

\* Only steps which are file operations are written down
GStep(t) ==
    \/ Call(t) /\ Do([k |-> "call", t |-> t, o |-> obj'[t], op |-> pend'[t].op])
    \/ (Mkdir(t) \/ Stat(t) \/ Create(t) \/ MakeAgain(t) \/ Write(t) \/ RenameTemp(t) \/ List(t) \/ OpenPack(t) \/ OpenLoose(t)) /\ T(t, pc[t])
    \/ Open(t) /\ IF todo[t] \subseteq cache THEN UNCHANGED hist ELSE T(t, "open")
    \/ (Finish(t) \/ Look(t) \/ Lock(t) \/ Relook(t)) /\ UNCHANGED hist

GGit ==
    \/ Tick /\ Do([k |-> "tick"])
    \/ \E p \in Packs : \/ MakePack(p) /\ Do([k |-> "mkpack", p |-> p])
                        \/ MakeIdx(p) /\ Do([k |-> "mkidx", p |-> p])
                        \/ DropPack(p) /\ Do([k |-> "drop", p |-> p, how |-> disk'[p]])
                        \/ DropIdx(p) /\ Do([k |-> "dropidx", p |-> p])
    \/ \E o \in Objects : \/ Prune(o) /\ Do([k |-> "prune", o |-> o])
                          \/ Unpack(o) /\ Do([k |-> "unpack", o |-> o])
                          \/ Rmdir(o) /\ Do([k |-> "rmdir", o |-> o])
                          \/ Delete(o) /\ Do([k |-> "prune", o |-> o])

Ended == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0

GNext == ~Ended /\ ((\E t \in Threads : GStep(t)) \/ GGit)
GSpec == GInit /\ [][GNext]_<<vars, hist>>

Emit == Ended => CSVWrite("%1$s", <<ToJson([k |-> "sched", hist |-> hist])>>, IOEnv.OUT)
=============================================================================
