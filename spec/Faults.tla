------------------------------- MODULE Faults -------------------------------
(* Reading an object when calls to the system fail: how the object database *)
(* searches its packs, the loose objects and the packs anew, and what is    *)
(* left behind in the handle. Nothing is moved meanwhile (see OdbImpl).     *)
(* The object is stored in some packs, loose, both or nowhere.              *)
(* A first read, during which calls fail, is followed by one undisturbed.   *)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Packs, Bug

VARIABLES
    loose,      \* the object is stored loose
    inside,     \* the packs which contain it
    packs,      \* the packs there are
    known,      \* the packs opened by the handle
    dead,       \* those of them which can't be used
    recent,     \* there was a refresh recently
    round,      \* 1: calls may fail, 2: they do not
    pc, todo, err, pass,
    out         \* the outcomes of the two reads

vars == <<loose, inside, packs, known, dead, recent, round, pc, todo, err, pass, out>>

Init ==
    /\ loose \in BOOLEAN /\ packs \in SUBSET Packs /\ inside \in SUBSET packs
    /\ known \in SUBSET packs /\ dead = {} /\ recent \in BOOLEAN
    /\ round = 1 /\ pc = "known" /\ todo = known \cap inside /\ err = FALSE /\ pass = 1
    /\ out = <<>>

Fails == IF round = 1 THEN BOOLEAN ELSE {FALSE}

\* The call ends with an outcome
Return(r) ==
    /\ out' = Append(out, r)
    /\ round' = round + 1
    /\ pass' = 1 /\ err' = FALSE
    /\ pc' = IF round = 1 THEN "known" ELSE "end"
    /\ todo' = (known' \ dead') \cap inside

Keep == UNCHANGED <<loose, inside, packs>>

\* The object is read from a pack which has been opened. All copies are tried.
ReadKnown ==
    /\ pc \in {"known", "again"} /\ todo # {}
    /\ Keep /\ UNCHANGED <<known, dead, recent>>
    /\ \E p \in todo, f \in Fails :
         IF f THEN /\ todo' = todo \ {p} /\ err' = TRUE
                   /\ UNCHANGED <<round, pc, pass, out>>
         ELSE Return("found")

\* None of the copies could be read, or there are none
NoneKnown ==
    /\ pc = "known" /\ todo = {}
    /\ Keep /\ UNCHANGED <<known, dead, round, pass, out, recent>>
    /\ err' = FALSE
    \* an error is not final: there can be a loose copy. Without one the packs are searched anew.
    /\ IF err \/ recent THEN pc' = "loose" /\ todo' = todo
       ELSE pc' = "list" /\ todo' = {}

List ==
    /\ pc \in {"list", "relist"}
    /\ Keep /\ UNCHANGED <<known, dead, round, pass, out, recent>>
    /\ \E f \in Fails :
         IF f THEN /\ err' = (Bug # "list") /\ todo' = {} /\ pc' = (IF pc = "list" THEN "opened" ELSE "reopened")
         ELSE /\ err' = err /\ todo' = packs \ known /\ pc' = (IF pc = "list" THEN "open" ELSE "reopen")

\* The folder is listed entry by entry, and each pack is opened. A failure while listing ends that.
Open ==
    /\ pc \in {"open", "reopen"}
    /\ Keep /\ UNCHANGED <<round, pass, out>>
    /\ IF todo = {}
       THEN /\ pc' = (IF pc = "open" THEN "opened" ELSE "reopened")
            /\ recent' = (recent \/ ~err)
            /\ UNCHANGED <<known, dead, todo, err>>
       ELSE /\ recent' = recent
            /\ \/ \E p \in todo, f \in Fails :
                    /\ todo' = todo \ {p} /\ pc' = pc
                    /\ err' = (err \/ (f /\ Bug # "skip"))
                    /\ known' = IF f /\ Bug # "register" THEN known ELSE known \cup {p}
                    /\ dead' = IF f /\ Bug = "register" THEN dead \cup {p} ELSE dead
               \/ /\ TRUE \in Fails
                  /\ todo' = {} /\ err' = (Bug # "list") /\ known' = known /\ dead' = dead
                  /\ pc' = (IF pc = "open" THEN "opened" ELSE "reopened")

\* After the packs have been listed
Opened ==
    /\ pc \in {"opened", "reopened"}
    /\ Keep /\ UNCHANGED <<known, dead, round, pass, out, recent>>
    /\ err' = err /\ todo' = (known \ dead) \cap inside
    /\ pc' = IF pc = "opened" THEN "again" ELSE "last"

AgainNone ==
    /\ pc = "again" /\ todo = {}
    /\ Keep /\ UNCHANGED <<known, dead, round, pass, out, recent, todo>>
    /\ pc' = "loose" /\ err' = FALSE

Loose ==
    /\ pc = "loose"
    /\ Keep /\ UNCHANGED <<known, dead, recent>>
    /\ \E f \in Fails :
         CASE f /\ Bug # "loose" -> Return("error")
           [] ~f /\ loose -> Return("found")
           [] OTHER -> pc' = "relist" /\ UNCHANGED <<round, todo, err, pass, out>>

\* The last chance of this pass
Last ==
    /\ pc = "last"
    /\ Keep /\ UNCHANGED <<known, dead, recent>>
    /\ IF todo # {}
       THEN \E p \in todo, f \in Fails :
              IF f THEN todo' = todo \ {p} /\ err' = TRUE /\ UNCHANGED <<round, pc, pass, out>>
              ELSE Return("found")
       ELSE IF err THEN Return("error")
       ELSE IF pass = 2 THEN Return("absent")
       ELSE pass' = 2 /\ pc' = "loose" /\ UNCHANGED <<round, todo, err, out>>

Next == ReadKnown \/ NoneKnown \/ List \/ Open \/ Opened \/ AgainNone \/ Loose \/ Last
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Stored == loose \/ inside # {}
Truth == IF Stored THEN "found" ELSE "absent"

Honest == Len(out) >= 1 => out[1] \in {Truth, "error"}
Recovers == Len(out) = 2 => out[2] = Truth
Returns == <>(pc = "end")
Type == known \subseteq packs /\ Len(out) <= 2
=============================================================================
