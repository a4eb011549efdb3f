--------------------------- MODULE CasesResources ---------------------------
(* Judges what handles of the real code kept while programs were repeated.  *)
(*   ops    the program                                                     *)
(*   lives  handles: rounds [steps, mem, files, tasks]; what was left after *)
(*          the handle was closed: files, tasks                             *)
(*     steps  after each operation: open files, readers held, packs met     *)
(*     mem    bytes in use at the end of the round, when no reader is held  *)
(*   after  bytes in use after whole lives                                  *)
EXTENDS CasesLib

R == INSTANCE Resources WITH Packs <- {}, Objects <- {}, Bug <- "none", MaxFiles <- 0, disk <- {}, met <- {}, known <- {},
                             files <- <<>>, kept <- <<>>, readers <- 0, open <- TRUE, last <- <<>>

\* All failures have happened once before round Warm; then they repeat every 18 rounds
Warm == 10
Rounds == 28

Range(s) == {s[k] : k \in 1..Len(s)}

\* Threads may leave things for the next ones, as many as there were at once
Slack(c) == IF "threads" \in Range(c.ops) THEN 100000 ELSE 64

LifeOk(c, x) ==
    /\ Len(x.rounds) = Rounds
    /\ \A k \in 1..Rounds :
         LET r == x.rounds[k] IN
         /\ \A n \in 1..Len(r.steps) : R!Bound(r.steps[n][1], r.steps[n][3], r.steps[n][2])
         /\ r.tasks = 0
    /\ ~R!Grows(x.rounds[Warm].mem, x.rounds[Rounds].mem, Slack(c))
    /\ ~R!Grows(x.rounds[Warm].files, x.rounds[Rounds].files, 0)
    /\ x.files = 0 /\ x.tasks = 0

Ok(c) ==
    /\ \A k \in 1..Len(c.lives) : LifeOk(c, c.lives[k])
    /\ ~R!Grows(c.after[2], c.after[Len(c.after)], Slack(c))

Next == LET c == Cases[l] IN NextCase(Ok(c), "program/" \o ToString(Len(c.ops)))
Spec == Init /\ [][Next]_l
=============================================================================
