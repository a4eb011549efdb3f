------------------------------ MODULE CasesSys ------------------------------
(* Judges what operations of the real code returned while the system was    *)
(* unkind to them.                                                          *)
(*   op    the operation                                                    *)
(*   is    what the repository holds: "ok", "nf" (no such object or         *)
(*         reference) or "err" (it is damaged)                              *)
(*   full  the outcome [r, d] when nothing disturbs; d identifies what was  *)
(*         returned                                                         *)
(*   how   "chunks": reads are cut short and interrupted                    *)
(*         "failing": calls fail, but not because a file is missing         *)
(*   obs   the outcomes when disturbed                                      *)
(*   again the outcomes of the same operation afterwards, undisturbed       *)
EXTENDS CasesLib

Range(s) == {s[k] : k \in 1..Len(s)}

NotFound == {"nf", "onf"}
Reported == {"err", "bad", "loop"}

FullOk(c) ==
    CASE c.is = "ok" -> c.full.r = "ok"
      [] c.is = "nf" -> c.full.r \in NotFound
      [] c.is = "err" -> c.full.r \in Reported
      [] c.is = "any" -> c.full.r \in {"ok"} \cup NotFound \cup Reported

\* Which outcome is possible if some call failed
Disturbed(c, o) == o = c.full \/ o.r \in Reported

SysOk(c) ==
    /\ FullOk(c)
    /\ \A o \in Range(c.obs) : IF c.how = "chunks" THEN o = c.full ELSE Disturbed(c, o)
    /\ \A o \in Range(c.again) : o = c.full

Next == LET c == Cases[l] IN
        NextCase(SysOk(c), c.how \o "/" \o c.op \o "/" \o c.is \o (IF \E o \in Range(c.obs) : o # c.full THEN "/reported" ELSE ""))
Spec == Init /\ [][Next]_l
=============================================================================
