------------------------------ MODULE RefsImpl ------------------------------
(* How references are read: a loop over the files, and a recursive walk     *)
(* over directories for listing; with git changing files in between.        *)
(* TLC checks that its results are those which Refs allows.                 *)
(*                                                                          *)
(* Wrong designs, selected by constants:                                    *)
(*   Bound    how many hops are followed (0: without end)                   *)
(*   Memo     contents which were read once are remembered                  *)
(* Linking: references can be symbolic links of the file system, too.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Names, Objects, Ops, Updates, Bound, Memo, Linking,
          Chains   \* start with chains 1, 2, ... only (names are numbers)

VARIABLES files, stored, pend,          \* see Refs
          pc, from, at, hops, memo, out, left, budget

ivars == <<pc, from, at, hops, memo, out, left, budget>>
vars == <<files, stored, pend, ivars>>

IsUnder(n, d) == TRUE
R == INSTANCE Refs

Contents == {[k |-> "dir", o |-> o] : o \in Objects} \cup {[k |-> "sym", n |-> n] : n \in Names} \cup {[k |-> "bad"]}
            \cup (IF Linking THEN {[k |-> "link", n |-> n] : n \in Names} ELSE {})
Absent == R!Absent

Init ==
    /\ IF Chains
       THEN \E n \in Names, c \in Contents :
              files = [m \in {m \in Names : m <= n} |-> IF m = n THEN c ELSE [k |-> "sym", n |-> m + 1]]
       ELSE \E S \in SUBSET Names : files \in [S -> Contents]
    /\ stored \in SUBSET Objects
    /\ pend = [t \in Threads |-> R!Idle]
    /\ pc = [t \in Threads |-> "idle"]
    /\ at = [t \in Threads |-> Absent]
    /\ from = [t \in Threads |-> Absent]
    /\ hops = [t \in Threads |-> 0]
    /\ memo = [n \in {} |-> Absent]
    /\ out = [t \in Threads |-> [r |-> "none"]]
    /\ left = [t \in Threads |-> Ops]
    /\ budget = Updates

Read(n) == IF Memo /\ n \in DOMAIN memo THEN memo[n] ELSE R!Content(n)
Remember(n) == memo' = IF Memo THEN (n :> Read(n)) @@ memo ELSE memo

Call(t) ==
    /\ pc[t] = "idle" /\ left[t] > 0
    /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ \E n \in Names :
         /\ R!CallPeel(t, [k |-> "sym", n |-> n])
         /\ at' = [at EXCEPT ![t] = [k |-> "sym", n |-> n]]
         /\ from' = [from EXCEPT ![t] = [k |-> "sym", n |-> n]]
    /\ hops' = [hops EXCEPT ![t] = 0]
    /\ pc' = [pc EXCEPT ![t] = "follow"]
    /\ UNCHANGED <<memo, out, budget>>

Answer(t, r) == out' = [out EXCEPT ![t] = r] /\ pc' = [pc EXCEPT ![t] = "return"] /\ UNCHANGED <<at, hops, memo>>

Follow(t) ==
    /\ pc[t] = "follow"
    /\ UNCHANGED <<from, left, budget>>
    /\ CASE at[t].k = "sym" /\ Bound > 0 /\ hops[t] >= Bound -> Answer(t, [r |-> "loop"]) /\ R!Arrive(t)
         [] at[t].k = "sym" -> /\ at' = [at EXCEPT ![t] = Read(@.n)]
                               /\ Remember(at[t].n)
                               /\ hops' = [hops EXCEPT ![t] = @ + 1]
                               /\ UNCHANGED <<pc, out>>
                               /\ R!Hop(t)
         [] at[t].k = "dir" -> Answer(t, IF at[t].o \in stored THEN [r |-> "obj", o |-> at[t].o] ELSE [r |-> "onf"]) /\ R!Arrive(t)
         [] OTHER -> Answer(t, [r |-> IF at[t].k \in {"bad", "endless"} THEN "bad" ELSE "nf"]) /\ R!Arrive(t)

Return(t) ==
    /\ pc[t] = "return"
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ UNCHANGED <<from, at, hops, memo, out, left, budget>>
    /\ R!Ret(t, out[t])

Update ==
    /\ budget > 0 /\ budget' = budget - 1
    /\ UNCHANGED <<pc, from, at, hops, memo, out, left>>
    /\ \/ \E n \in Names, c \in Contents \cup {Absent} : R!SetFile(n, c)
       \/ \E o \in Objects : R!SetObject(o, o \notin stored)

Next == Update \/ \E t \in Threads : Call(t) \/ Follow(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A t \in Threads : WF_vars(Follow(t)) /\ WF_vars(Return(t))

\* A step which Refs does not allow is not possible, so nobody may be stuck
NotStuck == \A t \in Threads : pc[t] # "idle" => ENABLED (Follow(t) \/ Return(t))

\* If nothing changed, the result is what following the files leads to
Exact == \A t \in Threads :
    (pc[t] = "return" /\ budget = Updates) =>
        LET f == R!Follow(from[t], 0) IN
        IF f.hops <= R!Limit THEN out[t].r = f.r /\ (f.r = "obj" => out[t].o = f.o)
        ELSE out[t].r = "loop"

\* An object is only returned if some reference named it when it was read
NeverOther == \A t \in Threads :
    (pc[t] = "return" /\ out[t].r = "obj") => pend[t].at = [k |-> "dir", o |-> out[t].o]

\* A chain which git follows is followed
Deep == \A t \in Threads : (pc[t] = "return" /\ out[t].r = "loop") => hops[t] >= R!Limit

Returns == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
=============================================================================
