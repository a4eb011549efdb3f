------------------------------ MODULE OdbImpl ------------------------------
(* How the object database gets there: the file operations of writes and    *)
(* reads, and of git while it packs, repacks, unpacks and prunes, each one  *)
(* a step.  Refines ObjectStore.                                            *)
(*                                                                          *)
(* The constants below TRUE/2 give the implementation; other values give    *)
(* wrong ones, which TLC has to refute:                                     *)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS
    Threads, Objects, Packs,
    Ops,            \* operations per thread
    Budget,         \* steps of git (each may consist of two file operations)
    Kinds,          \* operations used
    Rename,         \* write to a temporary file, then rename it
    OwnTemp,        \* temporary names are not shared between writers
    Force,          \* the last refresh happens even if there was one recently
    SkipMissing,    \* packs which disappear during a refresh are skipped
    Passes,         \* how often loose objects and packs are searched
    CheckTarget,    \* a write looks for the object before it reports success early
    Remake          \* a write makes the folder of the object again if git has removed it

VARIABLES
    folder,     \* object -> the folder of its loose file exists
    target,     \* object -> its loose file: "absent", "partial", "complete"
    temp,       \* name -> temporary file: "absent", "partial", "complete"
    content,    \* pack -> the objects in it (never changes: packs are named after their content)
    disk,       \* pack -> which files exist: "none", "pack", "both", "idx"
    cache,      \* packs opened by the handle
    lock,       \* who refreshes
    recent,     \* the last refresh was less than two seconds ago
    pc, obj, todo, cur, pass, left,
    budget,
    held, pend  \* see ObjectStore

ivars == <<folder, target, temp, content, disk, cache, lock, recent, pc, obj, todo, cur, pass, left, budget>>
vars == <<ivars, held, pend>>

Complete(d) == {p \in Packs : d[p] = "both"}
LooseOf(f) == {o \in Objects : f[o] = "complete"}
PacksOf(d) == [p \in Packs |-> IF d[p] = "both" THEN content[p] ELSE {}]

S == INSTANCE ObjectStore WITH loose <- LooseOf(target), packs <- PacksOf(disk)

NoThread == "none"
NoPack == "none"
Name(t) == IF OwnTemp THEN t ELSE obj[t]

Init ==
    /\ target \in [Objects -> {"absent", "complete"}]
    /\ folder \in [Objects -> BOOLEAN] /\ \A o \in Objects : target[o] = "complete" => folder[o]
    /\ temp = [n \in Threads \cup Objects |-> "absent"]
    /\ content \in [Packs -> (SUBSET Objects) \ {{}}]
    /\ disk \in [Packs -> {"none", "both"}]
    /\ cache \in SUBSET Complete(disk)
    /\ lock = NoThread
    /\ recent \in BOOLEAN
    /\ pc = [t \in Threads |-> "idle"]
    /\ obj = [t \in Threads |-> CHOOSE o \in Objects : TRUE]
    /\ todo = [t \in Threads |-> {}]
    /\ cur = [t \in Threads |-> NoPack]
    /\ pass = [t \in Threads |-> 0]
    /\ left = [t \in Threads |-> Ops]
    /\ budget = Budget
    /\ held = S!InPacks(PacksOf(disk))
    /\ pend = [t \in Threads |-> S!None]

\* What a change of the files means to the operations in progress
Seen(f, d, gone) ==
    /\ held' = held \cup S!InPacks(PacksOf(d))
    /\ pend' = S!See(LooseOf(f), PacksOf(d), gone)
NothingSeen == UNCHANGED <<held, pend>>

Goto(t, l) == pc' = [pc EXCEPT ![t] = l]

Call(t) ==
    /\ pc[t] = "idle" /\ left[t] > 0
    /\ \E op \in Kinds, o \in Objects :
         /\ obj' = [obj EXCEPT ![t] = o]
         /\ Goto(t, IF op = "read" THEN "look" ELSE "mkdir")
         /\ pend' = [pend EXCEPT ![t] = [op |-> op, obj |-> o, fresh |-> FALSE, seen |-> o \in S!Stored,
                                         absent |-> o \notin S!Stored, moves |-> 0, faulted |-> FALSE]]
    /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ pass' = [pass EXCEPT ![t] = 0]
    /\ UNCHANGED <<folder, target, temp, content, disk, cache, lock, recent, todo, cur, budget, held>>

\* Return with a result; whether it was allowed is what the refinement says
Return(t, r) ==
    /\ Goto(t, "idle")
    /\ pend' = [pend EXCEPT ![t] = IF S!RetAllowed(t, r) THEN S!None ELSE [op |-> "wrong"]]
    /\ UNCHANGED held

---------------------------------------------------------------------------
(* Writing                                                                  *)

Mkdir(t) ==
    /\ pc[t] = "mkdir" /\ Goto(t, "stat")
    /\ folder' = [folder EXCEPT ![obj[t]] = TRUE]
    /\ UNCHANGED <<target, temp, content, disk, cache, lock, recent, obj, todo, cur, pass, left, budget>> /\ NothingSeen

Stat(t) ==
    /\ pc[t] = "stat"
    /\ IF CheckTarget /\ target[obj[t]] # "absent" THEN Return(t, "ok") ELSE Goto(t, "create") /\ NothingSeen
    /\ UNCHANGED <<folder, target, temp, content, disk, cache, lock, recent, obj, todo, cur, pass, left, budget>>

\* git may have removed the folder: once is not enough to give up
Create(t) ==
    /\ pc[t] \in {"create", "recreate"}
    /\ IF folder[obj[t]]
       THEN /\ Goto(t, "write")
            /\ IF Rename
               THEN temp' = [temp EXCEPT ![Name(t)] = "partial"] /\ UNCHANGED target /\ NothingSeen
               ELSE target' = [target EXCEPT ![obj[t]] = "partial"] /\ UNCHANGED temp /\ Seen(target', disk, {})
       ELSE /\ UNCHANGED <<target, temp>>
            /\ CASE pc[t] = "create" /\ Remake -> Goto(t, "remake") /\ NothingSeen
                 [] pc[t] = "create" /\ ~Remake -> Return(t, "err")
                 [] OTHER -> Goto(t, "undo") /\ pend' = [pend EXCEPT ![t].faulted = TRUE] /\ UNCHANGED held
    /\ UNCHANGED <<folder, content, disk, cache, lock, recent, obj, todo, cur, pass, left, budget>>

MakeAgain(t) ==
    /\ pc[t] = "remake" /\ Goto(t, "recreate")
    /\ folder' = [folder EXCEPT ![obj[t]] = TRUE]
    /\ UNCHANGED <<target, temp, content, disk, cache, lock, recent, obj, todo, cur, pass, left, budget>> /\ NothingSeen

Write(t) ==
    /\ pc[t] = "write"
    /\ IF Rename
       THEN Goto(t, "rename") /\ temp' = [temp EXCEPT ![Name(t)] = "complete"] /\ UNCHANGED target /\ NothingSeen
       ELSE Goto(t, "finish") /\ target' = [target EXCEPT ![obj[t]] = "complete"] /\ UNCHANGED temp /\ Seen(target', disk, {})
    /\ UNCHANGED <<folder, content, disk, cache, lock, recent, obj, todo, cur, pass, left, budget>>

RenameTemp(t) ==
    /\ pc[t] = "rename"
    /\ IF temp[Name(t)] = "absent"
       THEN Return(t, "err") /\ UNCHANGED <<target, temp>>
       ELSE /\ target' = [target EXCEPT ![obj[t]] = temp[Name(t)]]
            /\ temp' = [temp EXCEPT ![Name(t)] = "absent"]
            /\ Goto(t, "finish")
            /\ Seen(target', disk, {})
    /\ UNCHANGED <<folder, content, disk, cache, lock, recent, obj, todo, cur, pass, left, budget>>

Finish(t) ==
    /\ pc[t] = "finish" /\ Return(t, "ok")
    /\ UNCHANGED <<folder, target, temp, content, disk, cache, lock, recent, obj, todo, cur, pass, left, budget>>

\* The process dies; what it wrote stays
Crash(t) ==
    /\ pc[t] \in {"mkdir", "stat", "create", "remake", "recreate", "write", "rename", "finish"}
    /\ Goto(t, "dead")
    /\ pend' = [pend EXCEPT ![t] = S!None]
    /\ UNCHANGED <<folder, target, temp, content, disk, cache, lock, recent, obj, todo, cur, pass, left, budget, held>>

\* A file operation of a write fails, the temporary file is removed
Fail(t) ==
    /\ pc[t] \in {"mkdir", "create", "remake", "recreate", "write", "rename"}
    /\ Goto(t, "undo")
    /\ pend' = [pend EXCEPT ![t].faulted = TRUE]
    /\ UNCHANGED <<folder, target, temp, content, disk, cache, lock, recent, obj, todo, cur, pass, left, budget, held>>

Undo(t) ==
    /\ pc[t] = "undo"
    /\ temp' = [temp EXCEPT ![Name(t)] = "absent"]
    /\ Return(t, "err")
    /\ UNCHANGED <<folder, target, content, disk, cache, lock, recent, obj, todo, cur, pass, left, budget>>

---------------------------------------------------------------------------
(* Reading                                                                  *)

Cached(o) == \E p \in cache : o \in content[p]

\* Among the packs opened earlier
Look(t) ==
    /\ pc[t] = "look"
    /\ IF Cached(obj[t]) THEN Return(t, "ok") ELSE Goto(t, "lock") /\ NothingSeen
    /\ UNCHANGED <<folder, target, temp, content, disk, cache, lock, recent, obj, todo, cur, pass, left, budget>>

Lock(t) ==
    /\ pc[t] = "lock" /\ lock = NoThread
    /\ IF recent /\ (pass[t] = 0 \/ ~Force)
       THEN Goto(t, "relook") /\ UNCHANGED <<lock, todo, cur>>
       ELSE Goto(t, "list") /\ lock' = t /\ todo' = [todo EXCEPT ![t] = {}] /\ cur' = [cur EXCEPT ![t] = NoPack]
    /\ UNCHANGED <<folder, target, temp, content, disk, cache, recent, obj, pass, left, budget>> /\ NothingSeen

\* The folder is not listed in one moment: first one part of it, then the rest
List(t) ==
    /\ pc[t] = "list"
    /\ \E Part \in IF cur[t] = NoPack THEN SUBSET Packs ELSE {{p \in Packs : TRUE}} :
         todo' = [todo EXCEPT ![t] = @ \cup {p \in Part : disk[p] \in {"both", "idx"}}]
    /\ IF cur[t] = NoPack THEN \E p \in Packs : cur' = [cur EXCEPT ![t] = p] /\ UNCHANGED pc
       ELSE Goto(t, "open") /\ UNCHANGED cur
    /\ UNCHANGED <<folder, target, temp, content, disk, cache, lock, recent, obj, pass, left, budget>> /\ NothingSeen

Open(t) ==
    /\ pc[t] = "open"
    /\ IF todo[t] \subseteq cache
       THEN /\ Goto(t, "relook") /\ lock' = NoThread /\ recent' = TRUE
            /\ UNCHANGED <<todo, cur>> /\ NothingSeen
       ELSE \E p \in todo[t] \ cache :
            IF disk[p] \in {"both", "idx"}
            THEN Goto(t, "openpack") /\ cur' = [cur EXCEPT ![t] = p] /\ UNCHANGED <<todo, lock, recent>> /\ NothingSeen
            ELSE /\ todo' = [todo EXCEPT ![t] = @ \ {p}] /\ UNCHANGED <<cur, recent>>
                 /\ IF SkipMissing THEN UNCHANGED <<pc, lock>> /\ NothingSeen ELSE lock' = NoThread /\ Return(t, "err")
    /\ UNCHANGED <<folder, target, temp, content, disk, cache, obj, pass, left, budget>>

OpenPack(t) ==
    /\ pc[t] = "openpack"
    /\ todo' = [todo EXCEPT ![t] = @ \ {cur[t]}]
    /\ IF disk[cur[t]] \in {"both", "pack"}
       THEN cache' = cache \cup {cur[t]} /\ Goto(t, "open") /\ UNCHANGED lock /\ NothingSeen
       ELSE /\ UNCHANGED cache
            /\ IF SkipMissing THEN Goto(t, "open") /\ UNCHANGED lock /\ NothingSeen ELSE lock' = NoThread /\ Return(t, "err")
    /\ UNCHANGED <<folder, target, temp, content, disk, recent, obj, cur, pass, left, budget>>

Relook(t) ==
    /\ pc[t] = "relook"
    /\ IF Cached(obj[t]) THEN Return(t, "ok") /\ UNCHANGED pass
       ELSE IF pass[t] = Passes THEN Return(t, "nf") /\ UNCHANGED pass
       ELSE Goto(t, "loose") /\ pass' = [pass EXCEPT ![t] = @ + 1] /\ NothingSeen
    /\ UNCHANGED <<folder, target, temp, content, disk, cache, lock, recent, obj, todo, cur, left, budget>>

OpenLoose(t) ==
    /\ pc[t] = "loose"
    /\ CASE target[obj[t]] = "complete" -> Return(t, "ok")
         [] target[obj[t]] = "partial" -> Return(t, "err")
         [] target[obj[t]] = "absent" -> Goto(t, "lock") /\ NothingSeen
    /\ UNCHANGED <<folder, target, temp, content, disk, cache, lock, recent, obj, todo, cur, pass, left, budget>>

Step(t) ==
    \/ Mkdir(t) \/ Stat(t) \/ Create(t) \/ MakeAgain(t) \/ Write(t) \/ RenameTemp(t) \/ Finish(t) \/ Undo(t)
    \/ Look(t) \/ Lock(t) \/ List(t) \/ Open(t) \/ OpenPack(t) \/ Relook(t) \/ OpenLoose(t)

---------------------------------------------------------------------------
(* git: objects keep one copy while they are moved                          *)

GitVars == <<temp, content, cache, lock, pc, obj, todo, cur, pass, left>>

Spend == budget > 0 /\ budget' = budget - 1

\* .pack first, then .idx
MakePack(p) ==
    /\ disk[p] = "none" /\ content[p] \subseteq S!Stored /\ Spend
    /\ disk' = [disk EXCEPT ![p] = "pack"]
    /\ UNCHANGED <<folder, target, recent, GitVars>> /\ NothingSeen
MakeIdx(p) ==
    /\ disk[p] = "pack"
    /\ disk' = [disk EXCEPT ![p] = "both"]
    /\ UNCHANGED <<folder, target, recent, budget, GitVars>> /\ Seen(target, disk', {})

\* in either order
DropPack(p) ==
    /\ disk[p] = "both" /\ Spend
    /\ \A o \in content[p] : S!Copies(o) > 1
    /\ \E d \in {"idx", "none"} : disk' = [disk EXCEPT ![p] = d]
    /\ UNCHANGED <<folder, target, recent, GitVars>> /\ Seen(target, disk', content[p])
DropIdx(p) ==
    /\ disk[p] = "idx"
    /\ disk' = [disk EXCEPT ![p] = "none"]
    /\ UNCHANGED <<folder, target, recent, budget, GitVars>> /\ NothingSeen

Prune(o) ==
    /\ target[o] = "complete" /\ o \in S!InPacks(PacksOf(disk)) /\ Spend
    /\ target' = [target EXCEPT ![o] = "absent"]
    /\ UNCHANGED <<folder, disk, recent, GitVars>> /\ Seen(target', disk, {o})

Unpack(o) ==
    /\ target[o] = "absent" /\ o \in S!InPacks(PacksOf(disk)) /\ Spend
    /\ target' = [target EXCEPT ![o] = "complete"] /\ folder' = [folder EXCEPT ![o] = TRUE]
    /\ UNCHANGED <<disk, recent, GitVars>> /\ Seen(target', disk, {})

Delete(o) ==
    /\ target[o] = "complete" /\ o \notin S!InPacks(PacksOf(disk)) /\ Spend
    /\ target' = [target EXCEPT ![o] = "absent"]
    /\ UNCHANGED <<folder, disk, recent, GitVars>> /\ Seen(target', disk, {o})

\* Only if there is nothing in it
Rmdir(o) ==
    /\ folder[o] /\ target[o] = "absent" /\ Spend
    /\ temp[o] = "absent" /\ \A t \in Threads : obj[t] = o => temp[t] = "absent"
    /\ folder' = [folder EXCEPT ![o] = FALSE]
    /\ UNCHANGED <<target, disk, recent, GitVars>> /\ NothingSeen

Tick ==
    /\ recent /\ recent' = FALSE /\ Spend
    /\ UNCHANGED <<folder, target, disk, GitVars>> /\ NothingSeen

Git == Tick \/ (\E p \in Packs : MakePack(p) \/ MakeIdx(p) \/ DropPack(p) \/ DropIdx(p)) \/ (\E o \in Objects : Prune(o) \/ Unpack(o) \/ Delete(o) \/ Rmdir(o))

Next == (\E t \in Threads : Call(t) \/ Step(t) \/ Crash(t) \/ Fail(t)) \/ Git

Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

---------------------------------------------------------------------------
Refines == S!Init /\ [][S!Next]_(S!vars)
Allowed == \A t \in Threads : pend[t].op # "wrong"
NoPartial == \A o \in Objects : target[o] # "partial"
Returns == \A t \in Threads : pc[t] # "idle" ~> pc[t] \in {"idle", "dead"}
=============================================================================
