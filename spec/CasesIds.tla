------------------------------ MODULE CasesIds ------------------------------
EXTENDS Ids, CasesLib

Ok(c) ==
    CASE c.k = "parse" ->
           /\ \A i \in 1..Len(c.obs.full) : c.obs.full[i] = ParseId(c.text)
           /\ \A i \in 1..Len(c.obs.short) : c.obs.short[i] = ParseShort(c.text)
      [] c.k = "search" ->
           /\ \A i \in 1..Len(c.ids) : c.obs.cmp[i] = CmpShort(c.short, c.ids[i]) /\ c.obs.rev[i] = 0 - CmpShort(c.short, c.ids[i])
           /\ c.obs.pos = Place(c.short, c.ids)
           /\ c.obs.found = (\E i \in 1..Len(c.ids) : c.ids[i] = c.short)
      [] c.k = "cmp" ->
           /\ c.obs.ids = CmpIds(c.a, c.b) /\ c.obs.partial = CmpIds(c.a, c.b)
           /\ c.obs.eq = (c.a = c.b) /\ c.obs.hash /\ c.obs.ss
           /\ c.obs.sa = CmpShort(c.s, c.a) /\ c.obs["as"] = 0 - CmpShort(c.s, c.a)
           /\ c.obs.hexa = ToHex(c.a) /\ c.obs.hexs = ToHex(c.s)

Class(c) == c.src \o "/" \o c.k \o
    (CASE c.k = "parse" -> "/" \o ToString(Len(ParseId(c.text))) \o ToString(Len(ParseShort(c.text)))
       [] c.k = "search" -> (IF c.obs.found THEN "/found" ELSE "/absent")
       [] OTHER -> "")

Next == LET c == Cases[l] IN NextCase(Ok(c), Class(c))
Spec == Init /\ [][Next]_l
=============================================================================
