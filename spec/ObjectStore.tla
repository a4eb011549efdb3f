---------------------------- MODULE ObjectStore ----------------------------
(* The object database as its users see it: a set of stored objects, each   *)
(* with a loose copy and copies in packs.  Threads (of any number of        *)
(* processes) read and write objects; git adds, moves and removes copies.   *)
(* Every operation has an interval from Call to Ret; a write takes effect   *)
(* at one moment inside of it (Commit) or not at all.                       *)
EXTENDS Naturals, FiniteSets

CONSTANTS Threads, Objects, Packs

VARIABLES
    loose,      \* objects with a loose copy
    packs,      \* pack -> objects with a copy in it
    held,       \* objects which were in a pack once: an open handle may still read those
    pend        \* thread -> operation in progress

vars == <<loose, packs, held, pend>>

None == [op |-> "none"]
InPacks(pk) == UNION {pk[p] : p \in Packs}
Stored == loose \cup InPacks(packs)

Copies(o) == Cardinality({p \in Packs : o \in packs[p]}) + (IF o \in loose THEN 1 ELSE 0)

TypeOK ==
    /\ loose \subseteq Objects
    /\ packs \in [Packs -> SUBSET Objects]
    /\ held \subseteq Objects
    /\ \A t \in Threads : pend[t] = None \/
         pend[t] \in [op : {"read", "write"}, obj : Objects, fresh : BOOLEAN, seen : BOOLEAN, absent : BOOLEAN,
                      moves : 0..2, faulted : BOOLEAN]

Init ==
    /\ loose \in SUBSET Objects
    /\ packs \in [Packs -> SUBSET Objects]
    /\ held = InPacks(packs)
    /\ pend = [t \in Threads |-> None]

\* What the operations in progress see of a change: was the object stored, or
\* absent, at some moment; how often did a copy go away
See(l, pk, gone) ==
    LET st == l \cup InPacks(pk) IN
    [t \in Threads |->
       IF pend[t].op = "none" THEN None
       ELSE [pend[t] EXCEPT !.seen = @ \/ pend[t].obj \in st,
                            !.absent = @ \/ pend[t].obj \notin st,
                            !.moves = IF pend[t].obj \in gone /\ @ < 2 THEN @ + 1 ELSE @]]

Change(l, pk, gone) ==
    /\ loose' = l
    /\ packs' = pk
    /\ held' = held \cup InPacks(pk)
    /\ pend' = See(l, pk, gone)

---------------------------------------------------------------------------
(* Threads                                                                  *)

\* fresh: the handle was opened for this operation
\* moved: the object may be about to move
CallMoved(t, op, o, fresh, moved) ==
    /\ pend[t].op = "none"
    /\ pend' = [pend EXCEPT ![t] = [op |-> op, obj |-> o, fresh |-> fresh, seen |-> o \in Stored, absent |-> o \notin Stored,
                                    moves |-> moved, faulted |-> FALSE]]
    /\ UNCHANGED <<loose, packs, held>>
Call(t, op, o, fresh) == CallMoved(t, op, o, fresh, 0)

\* A write takes effect
Commit(t) ==
    /\ pend[t].op = "write"
    /\ Change(loose \cup {pend[t].obj}, packs, {})

\* A file operation of this thread fails
Fault(t) ==
    /\ pend[t].op # "none"
    /\ pend' = [pend EXCEPT ![t].faulted = TRUE]
    /\ UNCHANGED <<loose, packs, held>>

RetAllowed(t, r) ==
    LET p == pend[t] IN
    CASE r = "err" -> p.faulted
      [] p.op = "write" -> r = "ok" /\ p.seen
      [] r = "ok" -> p.seen \/ (~p.fresh /\ p.obj \in held)
      [] r = "nf" -> p.absent \/ p.moves >= 2
      [] OTHER -> FALSE

Ret(t, r) ==
    /\ pend[t].op # "none"
    /\ RetAllowed(t, r)
    /\ pend' = [pend EXCEPT ![t] = None]
    /\ UNCHANGED <<loose, packs, held>>

Crash(t) ==
    /\ pend[t].op # "none"
    /\ pend' = [pend EXCEPT ![t] = None]
    /\ UNCHANGED <<loose, packs, held>>

---------------------------------------------------------------------------
(* git                                                                      *)

AddLoose(S) == Change(loose \cup S, packs, {})
AddPack(p, S) == packs[p] = {} /\ Change(loose, [packs EXCEPT ![p] = S], {})
RemoveLoose(S) == Change(loose \ S, packs, S \cap loose)
RemovePack(p) == Change(loose, [packs EXCEPT ![p] = {}], packs[p])

\* A git command begins which takes its time, and moves any object at most once
Command ==
    /\ pend' = [t \in Threads |-> IF pend[t].op = "none" \/ pend[t].moves = 2 THEN pend[t] ELSE [pend[t] EXCEPT !.moves = @ + 1]]
    /\ UNCHANGED <<loose, packs, held>>

Git ==
    \/ Command
    \/ \E S \in SUBSET Objects : AddLoose(S) \/ RemoveLoose(S)
    \/ \E p \in Packs : RemovePack(p) \/ \E S \in SUBSET Objects : AddPack(p, S)

Next ==
    \/ \E t \in Threads :
         \/ \E op \in {"read", "write"}, o \in Objects, f \in BOOLEAN : Call(t, op, o, f)
         \/ Commit(t) \/ Fault(t) \/ Crash(t)
         \/ \E r \in {"ok", "nf", "err"} : Ret(t, r)
    \/ Git

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* What users rely on, as consequences of the rules above                   *)

\* An operation can always return
CanReturn == \A t \in Threads : pend[t].op # "none" =>
    \/ \E r \in {"ok", "nf", "err"} : RetAllowed(t, r)
    \/ pend[t].op = "write"       \* after Commit

\* "not found" is not an answer about an object which is there and stays there
NotFoundIsAbsence == \A t \in Threads :
    (pend[t].op = "read" /\ ~pend[t].absent /\ pend[t].moves < 2) => ~RetAllowed(t, "nf")

\* A write which may report success has stored the object
WriteIsStored == \A t \in Threads :
    (pend[t].op = "write" /\ RetAllowed(t, "ok")) => pend[t].seen

\* Seeing is consistent
SeenOrAbsent == \A t \in Threads : pend[t].op # "none" =>
    /\ pend[t].seen \/ pend[t].absent
    /\ pend[t].obj \in Stored => pend[t].seen
    /\ pend[t].obj \notin Stored => pend[t].absent
HeldIsPacked == InPacks(packs) \subseteq held

\* Only git removes, only git and writes add: no read changes anything
ReadsChangeNothing == [][\A t \in Threads :
    (pend[t].op = "read" /\ pend'[t].op = "none") => UNCHANGED <<loose, packs>>]_vars
=============================================================================
