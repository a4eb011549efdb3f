---------------------------- MODULE CasesInside ----------------------------
(* Judges reference lookups of arbitrary names by the real code: which      *)
(* files were opened, and whose content was returned.                       *)
(*   git     the repository's directory                                     *)
(*   abs, name   the name which was looked up, in components; an empty name *)
(*               stands for the reading of objects                          *)
(*   opened  every path opened or looked at, in components                  *)
(*   obs     outcomes [r, file]: of which file the content was returned     *)
EXTENDS Paths, CasesLib

Range(s) == {s[k] : k \in 1..Len(s)}

\* The name is about something outside
Leaves(c) == c.name # <<>> /\ (c.abs \/ ~IsPrefix(c.git, Normal(c.git, c.name)))

Inside(c, p) == IsPrefix(c.git, Normal(<<>>, p))

InsideOk(c) ==
    /\ \A p \in Range(c.opened) : Inside(c, p)
    /\ \A o \in Range(c.obs) :
         IF Leaves(c) THEN o.r = "nf"
         ELSE /\ o.r \in {"ok", "nf", "onf", "err", "bad", "loop"}
              /\ o.r = "ok" => Inside(c, o.file)

Next == LET c == Cases[l] IN
        NextCase(InsideOk(c), c.src \o "/" \o (IF Leaves(c) THEN "outside" ELSE "inside") \o "/" \o (IF c.obs = <<>> THEN "" ELSE c.obs[1].r))
Spec == Init /\ [][Next]_l
=============================================================================
