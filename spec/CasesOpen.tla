----------------------------- MODULE CasesOpen -----------------------------
(* Judges openings by the real code. A case has a file system (fs, a list   *)
(* of [p, e]), the current directory, the path, whether a file operation    *)
(* failed, and what was observed: the outcome r, and which directories'     *)
(* HEAD was read (head), whose objects were found (objs), and where a       *)
(* written object went (wrote), as numbers in fs; and what was changed by   *)
(* opening (muts).                                                          *)
EXTENDS Open, CasesLib, FiniteSets

FS(c) == [n \in {c.fs[i].p : i \in 1..Len(c.fs)} |-> c.fs[CHOOSE i \in 1..Len(c.fs) : c.fs[i].p = n].e]

OpenOk(c) ==
    LET o == Outcome(FS(c), c.cwd, c.abs, c.path)
        at(is) == {c.fs[is[k]].p : k \in 1..Len(is)}
    IN  /\ c.muts = <<>>
        /\ IF c.obs.r = "ok"
           THEN /\ "ok" \in o.r
                /\ at(c.obs.head) = {o.serves} /\ at(c.obs.objs) = {o.serves} /\ at(c.obs.wrote) = {o.serves}
           ELSE c.obs.r \in o.r \ {"ok"} \/ (c.fault /\ c.obs.r = "io")

Class(c) == LET w == Found(FS(c), c.cwd, c.abs, c.path) IN
    (IF c.fault THEN "fault/" ELSE "") \o w.r \o (IF w.r = "at" THEN "-" \o FS(c)[w.n].k ELSE "") \o "/" \o c.obs.r

Next == LET c == Cases[l] IN NextCase(OpenOk(c), Class(c))
Spec == Init /\ [][Next]_l
=============================================================================
