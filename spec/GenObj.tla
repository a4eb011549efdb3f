------------------------------- MODULE GenObj -------------------------------
(* Enumerates structured objects; prints each of them, checks that the      *)
(* parsers of ObjFormat read it back field by field, and writes it to OUT   *)
(* as a case for the real code.  The commits, tags and trees printed here   *)
(* are what git itself writes.                                              *)
EXTENDS ObjFormat, Json, IOUtils, CSV, TLCExt

Gen == IOEnv.GEN
Out == IOEnv.OUT

VARIABLE x    \* the structured object

\* Ids with the digits which matter at the ends
Z(k) == [i \in 1..40 |-> IF i = 40 THEN 48 + k ELSE 48]
F(k) == [i \in 1..40 |-> IF i = 1 THEN 97 + k ELSE 102]

N_A == <<65>>
N_Thor == <<65,32,85,32,84,104,111,114>>                  \* A U Thor
N_Num == <<55,32,111,102,32,57>>                          \* 7 of 9
N_Digits == <<49,50,51>>
N_Latin1 == <<82,101,110,233>>                            \* Ren\xe9
N_Utf8 == <<229,177,177>>
N_Bin == <<255,254,128>>
N_Punct == <<74,46,32,34,66,34,32,68,44,32,40,120,41>>    \* J. "B" D, (x)
N_Dash == <<45>>
N_Mail == <<109,64,120,46,121>>                           \* m@x.y
N_Plus == <<43,49>>

Names == {<<>>, N_A, N_Thor, N_Num, N_Digits, N_Latin1, N_Utf8, N_Bin, N_Punct, N_Dash, N_Plus}
Emails == {<<>>, N_Mail, N_Digits, N_Latin1, N_Num}
Times == {<<>>, <<48>>, <<49,53,57,54,57,48,55,49,57,57>>,
          <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>}   \* 2^64 - 1
Zones == {<<>>, <<43,48,49,48,48>>, <<45,48,48,48,48>>, <<43,49,52,51,48>>}

Sigs == {[name |-> n, email |-> e, ts |-> IF t = <<>> THEN <<>> ELSE <<t>>, tz |-> IF z = <<>> THEN <<>> ELSE <<z>>] :
            n \in Names, e \in Emails, t \in Times, z \in Zones}
GoodSigs == {s \in Sigs : s.ts = <<>> => s.tz = <<>>}
Sig0 == [name |-> N_Thor, email |-> N_Mail, ts |-> <<<<49,53>>>>, tz |-> <<<<43,48,49,48,48>>>>]
Sig1 == [name |-> N_Latin1, email |-> <<>>, ts |-> <<<<48>>>>, tz |-> <<<<45,48,48,48,48>>>>]
Sig2 == [name |-> <<>>, email |-> N_Digits, ts |-> <<>>, tz |-> <<>>]

Enc == sEncoding \o <<73,83,79>>
Gpg1 == <<103,112,103,115,105,103,32,45,45>>                  \* gpgsig --
Cont1 == <<32>> \o sEncoding \o <<120>>                        \* a continuation line that looks like a header
Cont2 == <<32>>                                                \* an empty continuation line
Merge1 == <<109,101,114,103,101,116,97,103,32>> \o sObject \o Z(3)
Merge2 == <<32>> \o sType \o kCommit
NoVal == <<120>>
Extras == {<<>>, <<Enc>>, <<Gpg1, Cont1, Cont2>>, <<Enc, Gpg1, Cont2, Cont1>>, <<Merge1, Merge2, Cont2, Enc>>,
           <<NoVal>>, <<Gpg1, Enc, Cont1>>, <<sEncoding>>}
EncsOf(extra) == {From(extra[i], Len(sEncoding) + 1) : i \in {i \in 1..Len(extra) : StartsWith(extra[i], sEncoding)}}

Msgs == {<<>>, <<109,115,103,LF>>, <<LF, LF, 109>>, <<0, 255, LF>>, sTree \o Z(1) \o <<LF>>, sEncoding \o <<120,LF,LF>>}

Parents == {<<>>, <<Z(1)>>, <<F(0), Z(2)>>, <<Z(1), Z(1), F(1), Z(9)>>}

Commits == {[t |-> "commit", tree |-> Z(0), parents |-> p, authors |-> a, committer |-> c, extra |-> e, msg |-> m] :
              p \in Parents, a \in {<<Sig0>>, <<Sig2, Sig0>>, <<Sig1, Sig2, Sig0>>}, c \in {Sig0, Sig1},
              e \in Extras, m \in Msgs}

Tags == {[t |-> "tag", object |-> o, kind |-> k, name |-> n, tagger |-> g, extra |-> e, msg |-> m] :
           o \in {Z(4), F(2)}, k \in {kCommit, kTree, kBlob, kTag},
           n \in {<<118,49>>, <<>>, N_Bin, <<97,32,98>>},
           g \in {<<>>, <<Sig0>>, <<Sig1>>, <<Sig2>>},
           e \in {<<>>, <<Gpg1, Cont2>>},
           m \in {<<>>} \cup {<<m>> : m \in Msgs}}
\* Further headers are always followed by an empty line
GoodTags == {t \in Tags : t.msg = <<>> => t.extra = <<>>}

Raw(k) == [i \in 1..20 |-> IF i % 3 = k THEN 0 ELSE IF i % 3 = 0 THEN 49 ELSE 32]
TreeEntries == {[mode |-> m, name |-> n, raw |-> Raw(k)] :
                  m \in {<<49,48,48,54,52,52>>, <<52,48,48,48,48>>, <<49,54,48,48,48,48>>, <<49,55,55,55,55,55>>},
                  n \in {<<97>>, <<97,32,98>>, <<255,LF>>, <<49,48,48,54,52,52,32,97>>}, k \in 0..2}
FewEntries == {e \in TreeEntries : e.raw = Raw(1) \/ e.name = <<97>>}
Trees == {[t |-> "tree", es |-> <<>>]} \cup {[t |-> "tree", es |-> <<e>>] : e \in TreeEntries}
           \cup {[t |-> "tree", es |-> <<e, f>>] : e \in FewEntries, f \in FewEntries}
           \cup {[t |-> "tree", es |-> <<e, f, e, f, f>>] : e \in FewEntries, f \in {g \in FewEntries : g.mode[1] = 52}}

Blobs == {[t |-> "blob", data |-> d] : d \in UNION {[1..n -> {0, 10, 32, 98, 255}] : n \in 0..4}}

Idents == {[t |-> "commit", tree |-> Z(0), parents |-> <<>>, authors |-> <<s>>, committer |-> s, extra |-> <<>>, msg |-> <<109>>] : s \in GoodSigs}
            \cup {[t |-> "tag", object |-> Z(4), kind |-> kBlob, name |-> <<118>>, tagger |-> <<s>>, extra |-> <<>>, msg |-> <<>>] : s \in GoodSigs}

Structures == CASE Gen = "commit" -> Commits [] Gen = "tag" -> GoodTags [] Gen = "tree" -> Trees
                [] Gen = "blob" -> Blobs [] Gen = "ident" -> Idents

Printed(o) == CASE o.t = "commit" -> PrintCommit(o) [] o.t = "tag" -> PrintTag(o)
              [] o.t = "tree" -> PrintTree(o.es) [] o.t = "blob" -> o.data

\* The parsed signature is exactly the printed one
SigSame(p, s) == p.r = Ok /\ p.name = s.name /\ p.email = s.email /\ p.time = [r |-> Ok, ts |-> s.ts, tz |-> s.tz]

RoundTrip ==
    LET b == Printed(x)
        p == ParseBody(x.t, b)
    IN  /\ p.r = Ok
        /\ CASE x.t = "commit" ->
                  /\ p.tree = x.tree /\ p.parents = x.parents /\ SigSame(p.author, x.authors[1])
                  /\ SigSame(p.committer, x.committer)
                  /\ p.encs = EncsOf(x.extra) /\ p.msg = x.msg
             [] x.t = "tag" ->
                  /\ p.object = x.object /\ p.kind = KindName(x.kind) /\ p.name = x.name /\ p.msg = x.msg
                  /\ Len(p.tagger) = Len(x.tagger) /\ \A i \in 1..Len(x.tagger) : SigSame(p.tagger[i], x.tagger[i])
             [] x.t = "tree" ->
                  p.entries = [i \in 1..Len(x.es) |-> [mode |-> OctalVal(x.es[i].mode), name |-> x.es[i].name,
                                                        id |-> ToHex(x.es[i].raw)]]
             [] x.t = "blob" -> p.data = x.data

\* Dropping a required line, or the end, makes an object unreadable: the parsers reject what lost something
Rejects ==
    LET b == Printed(x) IN
    CASE x.t = "commit" ->
           /\ ParseCommit(From(b, 47)).r = "err"                                     \* no tree
           /\ LET i == BlankLine(b, 1) IN ParseCommit(Sub(b, 1, i - 1)).r = "err"    \* no blank line
      [] x.t = "tag" -> /\ ParseTag(From(b, 49)).r = "err"
                        /\ ParseTag(Sub(b, 1, 48)).r = "err"
      [] x.t = "tree" -> \A n \in 1..Min2(20, Len(b)) : ParseTree(Sub(b, 1, Len(b) - n)).r = "err"
      [] x.t = "blob" -> ParseLoose(PrintLoose("blob", x.data)) = ParseBlob(x.data)

Emit == CSVWrite("%1$s", <<ToJson([k |-> "obj", src |-> "printed", t |-> x.t, body |-> Printed(x)])>>, Out)

Init == x \in Structures
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
