------------------------------ MODULE CasesLib ------------------------------
(* Walks through the recorded cases, one state per case.  A case which the  *)
(* specification does not allow is reported with its number.                *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLE l

Init == l = 1

NextCase(ok, class) ==
    /\ l <= Len(Cases)
    /\ l' = l + 1
    /\ PrintT(IF ok THEN "CLASS " \o class ELSE "BAD " \o ToString(l))

Done == PrintT("CHECKED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
