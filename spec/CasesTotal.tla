----------------------------- MODULE CasesTotal -----------------------------
(* Judges what the real code did with repositories which contain anything.  *)
(*   rs     the outcomes of the operations, [op, r]                         *)
(*   peak   memory in use at most, in KiB                                   *)
(*   data   what there is: the files and what can be inflated and copied    *)
(*          from them as far as lengths allow, in KiB                       *)
(* That everything returned is a precondition for a case to be written.     *)
EXTENDS CasesLib

Range(s) == {s[k] : k \in 1..Len(s)}

Allowed(op) ==
    CASE op \in {"parse", "raw"} -> {"ok", "nf", "err"}
      [] op \in {"get", "peel"} -> {"ok", "nf", "onf", "bad", "err", "loop"}
      [] op = "list" -> {"ok", "err"}
      [] op = "open" -> {"ok", "err"}

TotalOk(c) ==
    /\ \A o \in Range(c.rs) : o.r \in Allowed(o.op)
    /\ c.peak <= 4096 + 8 * c.data

Next == LET c == Cases[l] IN
        NextCase(TotalOk(c), c.src \o (IF \A o \in Range(c.rs) : o.r = "ok" THEN "/all ok" ELSE "/some refused"))
Spec == Init /\ [][Next]_l
=============================================================================
