-------------------------------- MODULE Refs --------------------------------
(* References, as a user sees them: files below .git with a content, which  *)
(* git replaces atomically at any time, and the operations get (read one    *)
(* reference), peel (follow a reference to an object) and list.             *)
(*                                                                          *)
(* A content is a record                                                    *)
(*   [k |-> "dir", o]      the id of object o                               *)
(*   [k |-> "sym", n]      "ref: n"                                         *)
(*   [k |-> "peel", o, n]  "<id of o> n"                                    *)
(*   [k |-> "link", n]     a symbolic link of the file system to n          *)
(*   [k |-> "bad"]         anything else                                    *)
(* Names are opaque but for IsUnder (is the name listed with a directory).  *)
(*                                                                          *)
(* A peel is no atomic step: every hop sees the files of its moment.        *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Threads, IsUnder(_, _)

\* A chain of this many hops has to be followed; a longer one may be given up.
Limit == 5

VARIABLES
    files,   \* name -> content, for the existing files
    stored,  \* the objects which exist
    pend     \* thread -> pending operation

rvars == <<files, stored, pend>>

Absent == [k |-> "absent"]

\* What is read in place of a link; links which never end can't be read
RECURSIVE Linked(_, _, _)
Linked(F, n, k) ==
    IF n \notin DOMAIN F THEN Absent
    ELSE IF F[n].k # "link" THEN F[n]
    ELSE IF k = 0 THEN [k |-> "endless"]
    ELSE Linked(F, F[n].n, k - 1)
Content(n) == Linked(files, n, 20)

\* A link to nothing may be taken for a reference or not
Solid(F, n) == n \in DOMAIN F /\ (F[n].k = "link" => Linked(F, n, 20).k \notin {"absent", "endless"})
Idle == [op |-> "none"]

\* What following from a content comes to, if nothing changes
RECURSIVE Follow(_, _)
Follow(c, hops) ==
    CASE c.k \in {"dir", "peel"} -> IF c.o \in stored THEN [r |-> "obj", o |-> c.o, hops |-> hops] ELSE [r |-> "onf", hops |-> hops]
      [] c.k = "absent" -> [r |-> "nf", hops |-> hops]
      [] c.k \in {"bad", "endless"} -> [r |-> "bad", hops |-> hops]
      [] c.k = "sym" -> IF hops > 12 THEN [r |-> "loop", hops |-> hops] ELSE Follow(Content(c.n), hops + 1)

---------------------------------------------------------------------------
(* git                                                                      *)

Listing(p, n) == p.op = "list" /\ \E d \in p.dirs : IsUnder(n, d)

\* A file comes, changes or goes
SetFile(n, c) ==
    /\ files' = IF c = Absent THEN [m \in DOMAIN files \ {n} |-> files[m]] ELSE (n :> c) @@ files
    /\ pend' = [t \in Threads |->
         IF pend[t].op # "list" THEN pend[t]
         ELSE [pend[t] EXCEPT !.must = {m \in @ : Solid(files', m)},
                              !.may = IF c # Absent /\ Listing(pend[t], n) THEN @ \cup {n} ELSE @]]
    /\ UNCHANGED stored

SetObject(o, has) ==
    /\ stored' = IF has THEN stored \cup {o} ELSE stored \ {o}
    /\ UNCHANGED <<files, pend>>

---------------------------------------------------------------------------
(* Operations                                                               *)

Start(t, p) == pend[t] = Idle /\ pend' = [pend EXCEPT ![t] = p] /\ UNCHANGED <<files, stored>>

CallGet(t, n) == Start(t, [op |-> "get", n |-> n, looked |-> FALSE, seen |-> Absent, fault |-> FALSE])
CallPeel(t, c) == Start(t, [op |-> "peel", at |-> c, hops |-> 0, out |-> "", fault |-> FALSE])
CallList(t, dirs) ==
    LET now == {n \in DOMAIN files : \E d \in dirs : IsUnder(n, d)} IN
    Start(t, [op |-> "list", dirs |-> dirs, must |-> {n \in now : Solid(files, n)}, may |-> now, fault |-> FALSE])

\* A file operation of the thread fails
Fault(t) ==
    /\ pend[t] # Idle
    /\ pend' = [pend EXCEPT ![t].fault = TRUE]
    /\ UNCHANGED <<files, stored>>

Silent(t, p) == pend' = [pend EXCEPT ![t] = p] /\ UNCHANGED <<files, stored>>

Look(t) ==
    /\ pend[t].op = "get" /\ ~pend[t].looked
    /\ Silent(t, [pend[t] EXCEPT !.looked = TRUE, !.seen = Content(pend[t].n)])

Hop(t) ==
    /\ pend[t].op = "peel" /\ pend[t].out = "" /\ pend[t].at.k = "sym"
    /\ pend[t].hops <= 12
    /\ Silent(t, [pend[t] EXCEPT !.at = Content(@.n), !.hops = @ + 1])

\* The object is looked up, or is not because there is no going on
Arrive(t) ==
    /\ pend[t].op = "peel" /\ pend[t].out = ""
    /\ \/ /\ pend[t].at.k \in {"dir", "peel"}
          /\ Silent(t, [pend[t] EXCEPT !.out = IF pend[t].at.o \in stored THEN "obj" ELSE "error"])
       \/ /\ pend[t].at.k \in {"absent", "bad", "endless"} \/ (pend[t].at.k = "sym" /\ pend[t].hops >= Limit)
          /\ Silent(t, [pend[t] EXCEPT !.out = "error"])

Errors == {"nf", "onf", "loop", "bad", "err"}
NotFound == {"nf", "onf"}

\* Results r: [r |-> "ok", c], [r |-> "obj", o], [r |-> "names", names], or an error
GetOk(p, r) ==
    \/ p.fault /\ r.r \in Errors \ NotFound
    \/ p.looked /\ IF p.seen.k \in {"absent", "bad", "endless"} THEN r.r \in Errors ELSE r.r = "ok" /\ r.c = p.seen

PeelOk(p, r) ==
    \/ p.fault /\ r.r \in Errors \ NotFound
    \/ p.out = "error" /\ r.r \in Errors
    \/ p.out = "obj" /\ r.r = "obj" /\ r.o = p.at.o

Range(s) == {s[i] : i \in 1..Len(s)}
ListOk(p, r) ==
    \/ p.fault /\ r.r \in Errors \ NotFound
    \/ /\ r.r = "names"
       /\ Cardinality(Range(r.names)) = Len(r.names)
       /\ p.must \subseteq Range(r.names) /\ Range(r.names) \subseteq p.may

Ret(t, r) ==
    /\ CASE pend[t].op = "get" -> GetOk(pend[t], r)
         [] pend[t].op = "peel" -> PeelOk(pend[t], r)
         [] pend[t].op = "list" -> ListOk(pend[t], r)
         [] OTHER -> FALSE
    /\ pend' = [pend EXCEPT ![t] = Idle]
    /\ UNCHANGED <<files, stored>>
=============================================================================
