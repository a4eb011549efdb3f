----------------------------- MODULE ObjFormat -----------------------------
(* The formats of git's objects, as printers and as parsers.                *)
(*                                                                          *)
(* A parser maps bytes to [r |-> "ok", ...fields], [r |-> "err"] when the   *)
(* object has to be rejected, or [r |-> "any"] where git's own format       *)
(* leaves the reading open (nothing is claimed for such bytes, except that  *)
(* the library returns).  Ids are reported as 40 lower-case digits.         *)
EXTENDS Bytes, TLC

Ok == "ok"
Err == [r |-> "err"]
Open == [r |-> "any"]

---------------------------------------------------------------------------
(* Identities: "name <email> timestamp timezone"                            *)

LT == 60
GT == 62
IsCrud(b) == b <= 32 \/ b \in {46, 44, 58, 59, 60, 62, 34, 92, 39}

PrintSig(s) ==
    s.name \o (IF s.name = <<>> THEN <<>> ELSE <<SP>>) \o <<LT>> \o s.email \o <<GT>>
        \o (IF s.ts = <<>> THEN <<>>
            ELSE <<SP>> \o s.ts[1] \o (IF s.tz = <<>> THEN <<>> ELSE <<SP>> \o s.tz[1]))

\* What follows the e-mail: exactly nothing, " digits", or " digits [+-]digits"
ParseTime(s) ==
    IF s = <<>> THEN [r |-> Ok, ts |-> <<>>, tz |-> <<>>]
    ELSE IF s[1] # SP THEN Open
    ELSE LET e == Find(s, SP, 2)
             ts == IF e = 0 THEN From(s, 2) ELSE Sub(s, 2, e - 1)
             tz == IF e = 0 THEN <<>> ELSE From(s, e + 1)
         IN  IF ts = <<>> \/ ~AllDigits(ts) THEN Open
             ELSE IF e = 0 THEN [r |-> Ok, ts |-> <<ts>>, tz |-> <<>>]
             ELSE IF Len(tz) >= 2 /\ tz[1] \in {43, 45} /\ AllDigits(Tail(tz))
                  THEN [r |-> Ok, ts |-> <<ts>>, tz |-> <<tz>>]
             ELSE Open

ParseSig(l) ==
    LET lt == Find(l, LT, 1)
        gt == IF lt = 0 THEN 0 ELSE Find(l, GT, lt + 1)
    IN  IF lt = 0 \/ gt = 0 THEN Err
        ELSE IF Find(l, LT, lt + 1) # 0 \/ Find(l, GT, gt + 1) # 0 \/ Find(l, GT, 1) # gt THEN Open
        ELSE IF lt > 1 /\ l[lt - 1] # SP THEN Open
        ELSE LET t == ParseTime(From(l, gt + 1))
             IN  [r |-> Ok, name |-> Sub(l, 1, lt - 2), email |-> Sub(l, lt + 1, gt - 1),
                  time |-> t]

\* git removes "crud" from the ends of names when writing them, so a reader may do so as well;
\* everything else has to be reported exactly.
TrimOf(obs, raw) ==
    \/ obs = raw
    \/ /\ Len(obs) < Len(raw)
       /\ \E i \in 0..(Len(raw) - Len(obs)) :
            /\ obs = Sub(raw, i + 1, i + Len(obs))
            /\ \A k \in 1..i : IsCrud(raw[k])
            /\ \A k \in (i + Len(obs) + 1)..Len(raw) : IsCrud(raw[k])

SigOk(obs, s) ==
    \/ s.r = "any"
    \/ /\ s.r = Ok
       /\ TrimOf(obs.name, s.name)
       /\ TrimOf(obs.email, s.email)
       /\ s.time.r = Ok => obs.ts = s.time.ts /\ obs.tz = s.time.tz

---------------------------------------------------------------------------
(* Lines.  A header is the part of an object before its first empty line.   *)

\* The line starting at i (without its newline), or <<>> if no newline follows
LineEnd(b, i) == Find(b, LF, i)

IdLine(b, i, p) ==   \* p, 40 hexadecimal digits, newline: the position of the next line, or 0
    LET s == i + Len(p) IN
    IF /\ StartsAt(b, i, p)
       /\ s + 40 <= Len(b)
       /\ b[s + 40] = LF
       /\ \A k \in s..(s + 39) : IsHex(b[k])
    THEN s + 41 ELSE 0

IdAt(b, s) == LowerAll(Sub(b, s, s + 39))
UpperAt(b, s) == \E k \in s..(s + 39) : IsHexUpper(b[k])

\* Starting positions of the lines of the header
RECURSIVE HeaderLines(_, _)
HeaderLines(b, i) ==
    IF i > Len(b) \/ b[i] = LF THEN <<>>
    ELSE LET e == Find(b, LF, i) IN
         IF e = 0 THEN <<i>> ELSE <<i>> \o HeaderLines(b, e + 1)

\* The position of the first empty line, or 0
RECURSIVE BlankLine(_, _)
BlankLine(b, i) ==
    IF i > Len(b) THEN 0
    ELSE IF b[i] = LF THEN i
    ELSE LET e == Find(b, LF, i) IN IF e = 0 THEN 0 ELSE BlankLine(b, e + 1)

HasHeader(b, p) == LET hl == HeaderLines(b, 1) IN \E k \in 1..Len(hl) : StartsAt(b, hl[k], p)

---------------------------------------------------------------------------
(* Commits                                                                  *)

IdLinePrint(p, id) == p \o id \o <<LF>>
LinePrint(p, v) == p \o v \o <<LF>>

\* c: [tree, parents, authors (at least one), committer, extra (further header lines), msg]
PrintCommit(c) ==
    IdLinePrint(sTree, c.tree)
        \o Concat([i \in 1..Len(c.parents) |-> IdLinePrint(sParent, c.parents[i])])
        \o Concat([i \in 1..Len(c.authors) |-> LinePrint(sAuthor, PrintSig(c.authors[i]))])
        \o LinePrint(sCommitter, PrintSig(c.committer))
        \o Concat([i \in 1..Len(c.extra) |-> c.extra[i] \o <<LF>>])
        \o <<LF>> \o c.msg

\* The lines which start with p, from i on
RECURSIVE Run(_, _, _)
Run(b, i, p) ==
    IF ~StartsAt(b, i, p) THEN <<>>
    ELSE LET e == Find(b, LF, i) IN
         IF e = 0 THEN <<[s |-> i + Len(p), e |-> Len(b), next |-> 0]>>
         ELSE LET rest == Run(b, e + 1, p) IN
              <<[s |-> i + Len(p), e |-> e - 1, next |-> e + 1]>> \o rest

Last(s) == s[Len(s)]

CommitMissing(b) ==
    \/ BlankLine(b, 1) = 0
    \/ LET hl == HeaderLines(b, 1) IN
       \E p \in {sTree, sAuthor, sCommitter} : \A k \in 1..Len(hl) : ~StartsAt(b, hl[k], p)

ParseCommit(b) ==
    IF CommitMissing(b) THEN Err
    ELSE
    LET p0 == IdLine(b, 1, sTree) IN
    IF p0 = 0 THEN (IF StartsAt(b, 1, sTree) THEN Err ELSE Open)
    ELSE
    LET parents == Run(b, p0, sParent)
        p1 == IF parents = <<>> THEN p0 ELSE Last(parents).next
        badParent == \E i \in 1..Len(parents) : parents[i].e - parents[i].s # 39
                                             \/ ~AllHex(Sub(b, parents[i].s, parents[i].e))
    IN  IF badParent THEN Err
        ELSE
    LET authors == Run(b, p1, sAuthor) IN
    IF authors = <<>> THEN Open   \* there is an author line, but elsewhere
    ELSE
    LET p2 == Last(authors).next
        committer == Run(b, p2, sCommitter)
    IN  IF committer = <<>> THEN Open
        ELSE
    LET blank == BlankLine(b, 1)
        hl == HeaderLines(b, committer[1].next)
        a == ParseSig(Sub(b, authors[1].s, authors[1].e))
        others == {ParseSig(Sub(b, authors[i].s, authors[i].e)).r : i \in 2..Len(authors)}
        c == ParseSig(Sub(b, committer[1].s, committer[1].e))
        encs == {i \in 1..Len(hl) : StartsAt(b, hl[i], sEncoding)}
        odd == \E i \in 1..Len(hl) : \E p \in {sTree, sParent, sAuthor, sCommitter} : StartsAt(b, hl[i], p)
        EncOf(i) == Sub(b, hl[i] + Len(sEncoding), Find(b, LF, hl[i]) - 1)
    IN  IF a.r = "err" \/ c.r = "err" THEN Err
        ELSE IF odd \/ others \ {Ok} # {} \/ a.r = "any" \/ c.r = "any" THEN Open
        ELSE [r |-> Ok, t |-> "commit",
              tree |-> IdAt(b, 1 + Len(sTree)),
              parents |-> [i \in 1..Len(parents) |-> IdAt(b, parents[i].s)],
              author |-> a, committer |-> c, nauthors |-> Len(authors),
              encs |-> {EncOf(i) : i \in encs},
              nenc |-> IF encs = {} THEN 0 ELSE 1,
              msg |-> From(b, blank + 1)]

CommitOk(o, x) ==
    /\ o.tree = x.tree
    /\ o.parents = x.parents
    /\ o.n = Len(x.parents)
    /\ SigOk(o.author, x.author)
    /\ SigOk(o.committer, x.committer)
    \* git does not say which of several encoding headers counts
    /\ Len(o.enc) = x.nenc
    /\ \A i \in 1..Len(o.enc) : o.enc[i] \in x.encs
    /\ o.msg = x.msg

---------------------------------------------------------------------------
(* Trees                                                                    *)

PrintTree(es) == Concat([i \in 1..Len(es) |-> es[i].mode \o <<SP>> \o es[i].name \o <<NUL>> \o es[i].raw])

RECURSIVE TreeFrom(_, _)
TreeFrom(b, i) ==
    IF i > Len(b) THEN [r |-> Ok, es |-> <<>>]
    ELSE
    LET s == Find(b, SP, i)
        z == IF s = 0 THEN 0 ELSE Find(b, NUL, s + 1)
        mode == IF s = 0 THEN <<>> ELSE Sub(b, i, s - 1)
        digits == StripZeros(mode)
    IN  IF s = 0 \/ z = 0 \/ z + 20 > Len(b) THEN Err       \* ends inside an entry
        ELSE IF mode = <<>> \/ \E k \in 1..Len(mode) : ~(IsOctal(mode[k]) \/ (k = 1 /\ mode[k] = 43)) THEN Err
        ELSE IF mode[1] = 43 THEN Open
        ELSE IF Len(digits) > 6 \/ OctalVal(digits) > 65535 THEN Err    \* no other mode instead
        ELSE IF z = s + 1 THEN Open
        ELSE LET rest == TreeFrom(b, z + 21) IN
             IF rest.r # Ok THEN rest
             ELSE [r |-> Ok, es |-> <<[mode |-> OctalVal(digits), name |-> Sub(b, s + 1, z - 1),
                                       id |-> ToHex(Sub(b, z + 1, z + 20))]>> \o rest.es]

ParseTree(b) == LET t == TreeFrom(b, 1) IN IF t.r = Ok THEN [r |-> Ok, t |-> "tree", entries |-> t.es] ELSE t

TreeOk(o, x) == o.entries = x.entries /\ o.n = Len(x.entries)

---------------------------------------------------------------------------
(* Tags and blobs                                                           *)

\* t: [object, kind (bytes), name, tagger (0 or 1), extra, msg (0 or 1)]
PrintTag(t) ==
    IdLinePrint(sObject, t.object) \o LinePrint(sType, t.kind) \o LinePrint(sTag, t.name)
        \o (IF t.tagger = <<>> THEN <<>> ELSE LinePrint(sTagger, PrintSig(t.tagger[1])))
        \o Concat([i \in 1..Len(t.extra) |-> t.extra[i] \o <<LF>>])
        \o (IF t.msg = <<>> THEN <<>> ELSE <<LF>> \o t.msg[1])

ParseTag(b) ==
    IF LET hl == HeaderLines(b, 1) IN
       \E p \in {sObject, sType, sTag} : \A k \in 1..Len(hl) : ~StartsAt(b, hl[k], p) THEN Err
    ELSE
    LET p0 == IdLine(b, 1, sObject) IN
    IF p0 = 0 THEN (IF StartsAt(b, 1, sObject) THEN Err ELSE Open)
    ELSE
    LET type == Run(b, p0, sType) IN
    IF type = <<>> THEN Open
    ELSE
    LET kind == Sub(b, type[1].s, type[1].e)
        tag == Run(b, type[1].next, sTag)
    IN  IF KindName(kind) = "unknown" THEN Err
        ELSE IF tag = <<>> \/ tag[1].next = 0 THEN Open
        ELSE
    LET tagger == Run(b, tag[1].next, sTagger)
        p1 == IF tagger = <<>> THEN tag[1].next ELSE tagger[1].next
    IN  IF p1 = 0 THEN Open    \* a tagger line without a newline
        ELSE
    LET sig == IF tagger = <<>> THEN Open ELSE ParseSig(Sub(b, tagger[1].s, tagger[1].e))
        blank == BlankLine(b, p1)
        hl == HeaderLines(b, p1)
        odd == \E i \in 1..Len(hl) : \E p \in {sObject, sType, sTag, sTagger} : StartsAt(b, hl[i], p)
    IN  IF sig.r = "err" THEN Err
        ELSE IF odd \/ (tagger # <<>> /\ sig.r = "any") THEN Open
        ELSE IF blank = 0 /\ p1 <= Len(b) THEN Open   \* further headers, and then nothing
        ELSE [r |-> Ok, t |-> "tag",
              object |-> IdAt(b, 1 + Len(sObject)), kind |-> KindName(kind),
              name |-> Sub(b, tag[1].s, tag[1].e),
              tagger |-> IF tagger = <<>> THEN <<>> ELSE <<sig>>,
              msg |-> IF blank = 0 THEN <<>> ELSE <<From(b, blank + 1)>>]

TagOk(o, x) ==
    /\ o.object = x.object /\ o.kind = x.kind /\ o.name = x.name
    /\ Len(o.tagger) = Len(x.tagger)
    /\ \A i \in 1..Len(x.tagger) : SigOk(o.tagger[i], x.tagger[i])
    /\ o.msg = x.msg

ParseBlob(b) == [r |-> Ok, t |-> "blob", data |-> b]

---------------------------------------------------------------------------

ParseBody(t, b) ==
    CASE t = "commit" -> ParseCommit(b)
      [] t = "tree" -> ParseTree(b)
      [] t = "tag" -> ParseTag(b)
      [] t = "blob" -> ParseBlob(b)

\* Is the observed outcome o allowed for an object which parses to x?
OutcomeOk(o, x) ==
    CASE x.r = "any" -> o.r \in {"ok", "err"}
      [] x.r = "err" -> o.r = "err"
      [] x.r = "ok" ->
           /\ o.r = "ok"
           /\ o.t = x.t
           /\ CASE x.t = "commit" -> CommitOk(o, x)
                [] x.t = "tree" -> TreeOk(o, x)
                [] x.t = "tag" -> TagOk(o, x)
                [] x.t = "blob" -> o.data = x.data

---------------------------------------------------------------------------
(* Loose objects: "kind length NUL body"                                    *)

PrintLoose(t, b) == KindBytes(t) \o <<SP>> \o Decimal(Len(b)) \o <<NUL>> \o b

ParseLoose(f) ==
    LET s == Find(f, SP, 1)
        z == Find(f, NUL, 1)
        kind == KindName(Sub(f, 1, s - 1))
        len == Sub(f, s + 1, z - 1)
        plus == Len(len) > 1 /\ len[1] = 43
        digits == IF plus THEN Tail(len) ELSE len
        body == From(f, z + 1)
    IN  IF z = 0 \/ s = 0 \/ s > z THEN Err
        ELSE IF kind = "unknown" \/ digits = <<>> \/ ~AllDigits(digits) THEN Err
        ELSE IF StripZeros(digits) # Decimal(Len(body)) THEN Err
        ELSE IF plus \/ StripZeros(digits) # digits THEN Open
        ELSE ParseBody(kind, body)
=============================================================================
