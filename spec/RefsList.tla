------------------------------ MODULE RefsList ------------------------------
(* Listing: a walk over directories, each read at a moment of its own,      *)
(* while references come and go (and empty directories with them).          *)
(* Names are sequences of components.                                       *)
(*                                                                          *)
(* Wrong designs: Deep = FALSE (sub-directories are not entered), Gone =    *)
(* "error" (a directory which disappeared is an error), Locks (lock files   *)
(* are listed), Skip (the walk goes on after a directory which failed).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Names, Dirs, Updates, Faults, Deep, Gone, Locks, Skip

VARIABLES files, stored, pend, pc, todo, acc, failed, budget, faults
ivars == <<pc, todo, acc, failed, budget, faults>>
vars == <<files, stored, pend, ivars>>

Prefix(d, n) == Len(d) < Len(n) /\ SubSeq(n, 1, Len(d)) = d
IsLock(n) == n[Len(n)] \in {"x.lock"}
IsUnder(n, d) == Prefix(d, n) /\ ~IsLock(n)
R == INSTANCE Refs

\* A file is no directory
Fits(F) == \A m, n \in F : ~Prefix(m, n)
Exists(d) == d \in Dirs \/ \E n \in DOMAIN files : Prefix(d, n)

C == [k |-> "bad"]

Init ==
    /\ \E S \in SUBSET Names : Fits(S) /\ files = [n \in S |-> C]
    /\ stored = {} /\ pend = [t \in Threads |-> R!Idle]
    /\ pc = [t \in Threads |-> "idle"]
    /\ todo = [t \in Threads |-> {}]
    /\ acc = [t \in Threads |-> <<>>]
    /\ failed = [t \in Threads |-> FALSE]
    /\ budget = Updates /\ faults = Faults

Call(t) ==
    /\ pc[t] = "idle" /\ acc[t] = <<>>
    /\ \E S \in (SUBSET Dirs) \ {{}} : R!CallList(t, S) /\ todo' = [todo EXCEPT ![t] = S]
    /\ pc' = [pc EXCEPT ![t] = "walk"]
    /\ acc' = [acc EXCEPT ![t] = <<>>]
    /\ failed' = [failed EXCEPT ![t] = FALSE]
    /\ UNCHANGED <<budget, faults>>

\* What a directory contains
Children(d) == {SubSeq(n, 1, Len(d) + 1) : n \in {m \in DOMAIN files : Prefix(d, m)}}

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Walk(t) ==
    /\ pc[t] = "walk" /\ todo[t] # {}
    /\ \E d \in todo[t] :
         LET K == Children(d)
             F == {k \in K : k \in DOMAIN files /\ (Locks \/ ~IsLock(k))}
             D == IF Deep THEN {k \in K : k \notin DOMAIN files} ELSE {}
         IN  /\ todo' = [todo EXCEPT ![t] = (@ \ {d}) \cup D]
             /\ acc' = [acc EXCEPT ![t] = @ \o SeqOf(F)]
             /\ failed' = [failed EXCEPT ![t] = @ \/ (Gone = "error" /\ ~Exists(d))]
    /\ UNCHANGED <<files, stored, pend, pc, budget, faults>>

Fail(t) ==
    /\ pc[t] = "walk" /\ todo[t] # {} /\ faults > 0
    /\ faults' = faults - 1
    /\ \E d \in todo[t] : todo' = [todo EXCEPT ![t] = @ \ {d}]
    /\ failed' = [failed EXCEPT ![t] = ~Skip]
    /\ R!Fault(t)
    /\ UNCHANGED <<pc, acc, budget>>

Result(t) == IF failed[t] THEN [r |-> "err"] ELSE [r |-> "names", names |-> acc[t]]

Finish(t) ==
    /\ pc[t] = "walk" /\ todo[t] = {}
    /\ pc' = [pc EXCEPT ![t] = "done"]
    /\ R!Ret(t, Result(t))
    /\ UNCHANGED <<todo, acc, failed, budget, faults>>

Update ==
    /\ budget > 0 /\ budget' = budget - 1
    /\ UNCHANGED <<pc, todo, acc, failed, faults>>
    /\ \E n \in Names :
         \/ n \in DOMAIN files /\ R!SetFile(n, R!Absent)
         \/ n \notin DOMAIN files /\ Fits(DOMAIN files \cup {n}) /\ R!SetFile(n, C)

Next == Update \/ \E t \in Threads : Call(t) \/ Walk(t) \/ Fail(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars

\* Every listing can return what it found: Refs allows it
Allowed == \A t \in Threads : (pc[t] = "walk" /\ todo[t] = {}) => R!ListOk(pend[t], Result(t))
=============================================================================
