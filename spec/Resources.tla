----------------------------- MODULE Resources -----------------------------
(* What a handle keeps while it is used: open files and memory.             *)
(* Packs are met by searching the folder and stay open; each object read    *)
(* from a pack may be kept once; everything else ends with its operation,   *)
(* whether it succeeds or fails. Readers belong to whoever asked for them.  *)
EXTENDS Naturals, FiniteSets, TLC

\* What is allowed (also used to judge the real code): at most two files for each
\* pack met, and one for each reader held
Bound(files, met, readers) == files <= (2 * met) + readers
\* Doing the same again adds nothing
Grows(before, after, slack) == after > before + slack

CONSTANTS Packs, Objects, Bug, MaxFiles

VARIABLES
    disk,       \* the packs there are now
    met,        \* the packs there were at some time
    known,      \* the packs the handle has opened
    files,      \* open files: of a pack's index, of the pack, of loose objects, temporary ones
    kept,       \* how often an object is kept in memory
    readers,    \* readers which are held
    open,       \* the handle exists
    last        \* the last operation and what was kept after it

vars == <<disk, met, known, files, kept, readers, open, last>>

Kinds == {"index", "pack", "loose", "temp"}
None == [op |-> "none"]
Zero == [k \in Kinds |-> 0]

Total(f) == f["index"] + f["pack"] + f["loose"] + f["temp"]

Init ==
    /\ disk \in SUBSET Packs /\ met = disk /\ known = {}
    /\ files = Zero /\ kept = [o \in Objects |-> 0]
    /\ readers = 0 /\ open = TRUE /\ last = None

Did(op) == last' = [op |-> op, files |-> files', kept |-> kept', known |-> known']
Same == UNCHANGED <<disk, met, open>>

\* The folder is searched; the packs in fail can't be opened (their index could be, or not)
Search(fail) ==
    /\ open /\ Same /\ UNCHANGED <<kept, readers>>
    /\ LET new == IF Bug = "again" THEN disk ELSE disk \ known IN
       /\ known' = known \cup (new \ fail)
       /\ files' = [files EXCEPT !["pack"] = @ + Cardinality(new \ fail),
                                 !["index"] = @ + (IF Bug = "keep" THEN Cardinality(new \cap fail) ELSE 0)]
    /\ Did(<<"search", fail>>)

ReadPacked(o) ==
    /\ open /\ Same /\ known # {} /\ UNCHANGED <<known, files, readers>>
    /\ kept' = [kept EXCEPT ![o] = IF Bug = "copies" THEN @ + 1 ELSE 1]
    /\ Did(<<"packed", o>>)

\* A loose object is opened, read and closed
ReadLoose(fails) ==
    /\ open /\ Same /\ UNCHANGED <<known, kept, readers>>
    /\ files' = [files EXCEPT !["loose"] = IF fails /\ Bug = "failed" THEN @ + 1 ELSE @]
    /\ Did(<<"loose", fails>>)

Write(fails) ==
    /\ open /\ Same /\ UNCHANGED <<known, kept, readers>>
    /\ files' = [files EXCEPT !["temp"] = IF fails /\ Bug = "temporary" THEN @ + 1 ELSE @]
    /\ Did(<<"write", fails>>)

Hold ==
    /\ open /\ Same /\ readers < 2 /\ UNCHANGED <<known, kept>>
    /\ readers' = readers + 1
    /\ files' = [files EXCEPT !["loose"] = @ + 1]
    /\ last' = None

\* Also after the handle is gone
Drop ==
    /\ Same /\ readers > 0 /\ UNCHANGED <<known, kept>>
    /\ readers' = readers - 1
    /\ files' = [files EXCEPT !["loose"] = @ - 1]
    /\ last' = None

Close ==
    /\ open /\ open' = FALSE /\ UNCHANGED <<disk, met, readers>>
    /\ known' = {} /\ kept' = [o \in Objects |-> 0]
    /\ files' = [files EXCEPT !["index"] = 0, !["temp"] = 0, !["pack"] = IF Bug = "forgotten" THEN @ ELSE 0]
    /\ last' = None

\* Packs come and go
Git ==
    /\ \E d \in SUBSET Packs : disk' = d /\ d # disk /\ met' = met \cup d
    /\ UNCHANGED <<known, files, kept, readers, open>> /\ last' = None

Next ==
    \/ \E F \in SUBSET Packs : Search(F)
    \/ \E o \in Objects : ReadPacked(o)
    \/ \E f \in BOOLEAN : ReadLoose(f) \/ Write(f)
    \/ Hold \/ Drop \/ Close \/ Git

Spec == Init /\ [][Next]_vars

Few == Bound(Total(files), Cardinality(met), readers)
Once == \A o \in Objects : kept[o] <= 1
Released == ~open => Total(files) = readers /\ \A o \in Objects : kept[o] = 0
\* The same operation once more, nothing having changed meanwhile
Settled == [][last # None /\ last' # None /\ last'.op = last.op
              => last'.files = last.files /\ last'.kept = last.kept /\ last'.known = last.known]_vars
Limit == Total(files) <= MaxFiles /\ \A o \in Objects : kept[o] <= 2
=============================================================================
