------------------------------ MODULE CasesRef ------------------------------
(* Judges reference files read by the real code: obs holds what reading the *)
(* file as a branch, as HEAD, and from memory gave.                         *)
EXTENDS RefFormat, CasesLib

Next == LET c == Cases[l]
            x == ParseRef(c.body)
        IN  NextCase((\A i \in 1..Len(c.obs) : RefOutcomeOk(c.obs[i], x)) /\ (c.src = "printed" => x.r # "any"),
                     c.src \o "/" \o (IF x.r = "ok" THEN x.t ELSE x.r))
Spec == Init /\ [][Next]_l
=============================================================================
