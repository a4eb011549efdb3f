------------------------------- MODULE Reach -------------------------------
(* What references lead to, while git works on the repository: it stores    *)
(* the objects of a commit, then sets a branch to it, switches and deletes  *)
(* branches, and moves objects between loose files and packs (copying       *)
(* first). A reader resolves HEAD and reads what it leads to.               *)
EXTENDS ReachLib, Naturals, Sequences, FiniteSets, TLC

CONSTANTS N,        \* commits
          Branches, \* branches
          Bug       \* none, or a mistake which must be noticed

VARIABLES head,     \* the branch HEAD names
          val,      \* branch -> commit, 0: there is none
          made,     \* objects stored so far
          place,    \* object -> where it is stored
          moving,   \* the object being moved and where it was, <<0, "L">>: none
          moved,    \* whether a move began during this read
          rd,       \* the reader
          memo      \* what a handle with a mistake remembers
vars == <<head, val, made, place, moving, moved, rd, memo>>

\* Commit c consists of its tree 2c - 1 and itself 2c
Objects == 1..(2 * N)
Whole(c) == 2 * c <= made

Idle == [pc |-> "idle", b |-> 0, c |-> 0, o |-> 0, k |-> 0, w |-> [s |-> {}, c |-> {}], need |-> FALSE, res |-> "none"]

Init ==
    /\ head \in Branches /\ val = [b \in Branches |-> 0]
    /\ made = 0 /\ place = [o \in Objects |-> {}]
    /\ moving = <<0, "L">> /\ moved = FALSE
    /\ rd = Idle /\ memo = [b |-> [b \in Branches |-> 0], absent |-> {}]

\* ---- git ----
Store ==
    /\ made < 2 * N
    /\ made' = made + 1
    /\ \E p \in {"L", "P"} : place' = [place EXCEPT ![made + 1] = {p}]
    /\ UNCHANGED <<head, val, moving, moved, rd, memo>>
SetRef(b, c) ==
    /\ IF Bug = "early" THEN 2 * c <= made + 1 ELSE c = 0 \/ Whole(c)
    /\ val[b] # c
    /\ val' = [val EXCEPT ![b] = c]
    /\ rd' = [rd EXCEPT !.w = Changed(@, b, c)]
    /\ UNCHANGED <<head, made, place, moving, moved, memo>>
Switch(b) ==
    /\ b # head /\ head' = b
    /\ rd' = [rd EXCEPT !.w = IF rd.pc = "idle" THEN @ ELSE Named(@, b, val)]
    /\ UNCHANGED <<val, made, place, moving, moved, memo>>
Copy(o) ==
    /\ moving[1] = 0 /\ Cardinality(place[o]) = 1 /\ (rd.pc = "find" => ~moved)
    /\ moving' = <<o, CHOOSE p \in place[o] : TRUE>>
    /\ place' = [place EXCEPT ![o] = {"L", "P"}]
    /\ moved' = TRUE
    /\ UNCHANGED <<head, val, made, rd, memo>>
Drop ==
    /\ moving[1] # 0
    /\ place' = [place EXCEPT ![moving[1]] = @ \ {moving[2]}]
    /\ moving' = <<0, "L">>
    /\ UNCHANGED <<head, val, made, moved, rd, memo>>

\* ---- the reader ----
Places == IF Bug = "once" THEN <<"L", "P">> ELSE <<"L", "P", "L", "P">>

Peel ==
    /\ rd.pc = "idle"
    /\ rd' = [Idle EXCEPT !.pc = "ref", !.b = head, !.w = Begin({head}, val)]
    /\ UNCHANGED <<head, val, made, place, moving, moved, memo>>
Ref ==
    /\ rd.pc = "ref"
    /\ LET m == memo.b[rd.b]
           c == IF Bug = "memo" /\ m # 0 THEN m ELSE val[rd.b]
       IN  /\ rd' = IF c = 0 THEN [rd EXCEPT !.pc = "done", !.res = "missing"]
                    ELSE [rd EXCEPT !.pc = "find", !.c = c, !.o = 2 * c, !.k = 1, !.need = TRUE]
           /\ memo' = IF Bug = "memo" THEN [memo EXCEPT !.b[rd.b] = c] ELSE memo
    /\ moved' = (moving[1] # 0)
    /\ UNCHANGED <<head, val, made, place, moving>>
\* somebody asks for any object, stored or not
Ask(o) ==
    /\ rd.pc = "idle"
    /\ rd' = [Idle EXCEPT !.pc = "find", !.o = o, !.k = 1]
    /\ moved' = (moving[1] # 0)
    /\ UNCHANGED <<head, val, made, place, moving, memo>>
Find ==
    /\ rd.pc = "find"
    /\ IF Places[rd.k] \in place[rd.o] /\ ~(Bug = "absent" /\ rd.o \in memo.absent)
       THEN /\ memo' = memo
            /\ rd' = IF rd.need /\ rd.o = 2 * rd.c THEN [rd EXCEPT !.o = @ - 1, !.k = 1]
                     ELSE [rd EXCEPT !.pc = "done", !.res = "found"]
            /\ moved' = (moving[1] # 0)
       ELSE IF rd.k < Len(Places)
       THEN rd' = [rd EXCEPT !.k = @ + 1] /\ UNCHANGED <<moved, memo>>
       ELSE /\ rd' = [rd EXCEPT !.pc = "done", !.res = "lost"]
            /\ memo' = IF Bug = "absent" THEN [memo EXCEPT !.absent = @ \cup {rd.o}] ELSE memo
            /\ UNCHANGED moved
    /\ UNCHANGED <<head, val, made, place, moving>>
Return ==
    /\ rd.pc = "done"
    /\ rd' = Idle
    /\ UNCHANGED <<head, val, made, place, moving, moved, memo>>

Next ==
    \/ Store \/ Drop \/ Peel \/ Ref \/ Find \/ Return
    \/ \E b \in Branches : Switch(b) \/ \E c \in 0..N : SetRef(b, c)
    \/ \E o \in Objects : Copy(o) \/ Ask(o)
Spec == Init /\ [][Next]_vars

\* Whatever a reference leads to is there,
Reachable == rd.need => rd.res # "lost"
\* and it is what the reference contained at some moment of the lookup
Current == (rd.need => rd.c \in rd.w.c) /\ (rd.res = "missing" => 0 \in rd.w.c)
=============================================================================
