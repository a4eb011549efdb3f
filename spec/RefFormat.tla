----------------------------- MODULE RefFormat -----------------------------
(* The contents of a reference file.                                        *)
(*   [r |-> "ok", t |-> "direct", id]                                       *)
(*   [r |-> "ok", t |-> "sym", name, oid]  (oid: 0 or 1 ids)                *)
(*   [r |-> "err"]  no significant line, or an id which is not 40 digits    *)
(*   [r |-> "only", id]  an id followed by something else: if it is a direct *)
(*                       reference at all, then to this id                  *)
(*   [r |-> "any"]  forms whose meaning is left open                        *)
EXTENDS Bytes

Err == [r |-> "err"]
Open == [r |-> "any"]

HASH == 35
SLASH == 47
sRefColon == SubSeq(sRef, 1, 4)
sRefs == <<114,101,102,115,47>>    \* "refs/"

AllSpace(s) == \A i \in 1..Len(s) : IsSpace(s[i])
Trimmed(s) == s # <<>> /\ ~IsSpace(s[1]) /\ ~IsSpace(s[Len(s)])

RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s

RECURSIVE Lines(_)
Lines(f) ==
    IF f = <<>> THEN <<>>
    ELSE LET e == Find(f, LF, 1) IN
         IF e = 0 THEN <<f>> ELSE <<Sub(f, 1, e - 1)>> \o Lines(From(f, e + 1))

\* "skip": blank and comment lines, "open": indented text, "yes": significant
Significance(l) ==
    IF l = <<>> \/ l[1] = HASH THEN "skip"
    ELSE IF l[1] = SP /\ AllSpace(l) THEN "skip"
    ELSE IF l[1] = SP \/ AllSpace(l) THEN "open"
    ELSE "yes"

RECURSIVE FirstSignificant(_)
FirstSignificant(ls) ==
    IF ls = <<>> THEN [k |-> "none"]
    ELSE LET s == Significance(Head(ls)) IN
         IF s = "skip" THEN FirstSignificant(Tail(ls)) ELSE [k |-> s, line |-> Head(ls)]

IsId(s) == Len(s) = 40 /\ AllHex(s)

ParseLine(l) ==
    IF StartsWith(l, sRef) THEN
        LET name == From(l, 6) IN
        IF Trimmed(name) THEN [r |-> "ok", t |-> "sym", name |-> name, oid |-> <<>>] ELSE Open
    ELSE IF StartsWith(l, sRefColon) THEN Open
    ELSE
    LET sp == Find(l, SP, 1)
        id == IF sp = 0 THEN l ELSE Sub(l, 1, sp - 1)
        rest == IF sp = 0 THEN <<>> ELSE From(l, sp + 1)
    IN  IF sp = 0 THEN
            IF IsId(l) THEN [r |-> "ok", t |-> "direct", id |-> LowerAll(l)]
            ELSE IF Contains(l, SLASH) \/ IsId(RTrim(l)) THEN Open
            ELSE Err
        ELSE IF ~IsId(id) THEN (IF IsId(RTrim(id)) THEN Open ELSE Err)
        ELSE IF StartsWith(rest, sRefs) /\ Trimmed(rest)
             THEN [r |-> "ok", t |-> "sym", name |-> rest, oid |-> <<LowerAll(id)>>]
        ELSE Open

ParseRef(f) ==
    LET s == FirstSignificant(Lines(f)) IN
    CASE s.k = "none" -> Err
      [] s.k = "open" -> Open
      [] s.k = "yes" -> ParseLine(s.line)

PrintSym(name) == sRef \o name
PrintPeeled(id, name) == id \o <<SP>> \o name

RefOutcomeOk(o, x) ==
    CASE x.r = "any" -> o.r # "panic"
      [] x.r = "only" -> o.r # "panic" /\ (o.r = "ok" /\ o.t = "direct" => o.id = x.id)
      [] x.r = "err" -> o.r \notin {"ok", "panic", "nf"}
      [] x.r = "ok" ->
           /\ o.r = "ok" /\ o.t = x.t
           /\ IF x.t = "direct" THEN o.id = x.id ELSE o.name = x.name /\ o.oid = x.oid
=============================================================================
