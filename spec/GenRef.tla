------------------------------- MODULE GenRef -------------------------------
(* Enumerates reference files with a determined meaning, checks that they   *)
(* are read back, and writes them as cases for the real code.               *)
EXTENDS RefFormat, Json, IOUtils, CSV, TLC

VARIABLE x

Id1 == [i \in 1..40 |-> IF i % 2 = 0 THEN 48 ELSE 97]
Id2 == [i \in 1..40 |-> IF i < 30 THEN 70 ELSE 57]     \* upper case
Id3 == [i \in 1..40 |-> 48 + (i % 10)]

Prefixes == {<<>>, <<LF>>, <<HASH, 32, 120, LF>>, <<LF, LF, HASH, LF>>, <<SP, LF>>, <<HASH>> \o sRef \o <<120, LF, LF>>,
             <<HASH>> \o Id3 \o <<LF>>}
Suffixes == {<<>>, <<LF>>, <<LF, LF>>, <<LF>> \o Id3 \o <<LF>>, <<LF>> \o PrintSym(<<120>>), <<LF, 255, 0>>}

RN(s) == sRefs \o s
Names == {<<72,69,65,68>>, RN(<<104,101,97,100,115,47,109>>), RN(<<104,47,255,254>>), RN(<<104,47,195,169>>),
          RN(<<104,47,120,194,160>>),          \* ends with a no-break space
          RN(<<104,47,227,128,128>>),          \* an ideographic space
          RN(<<120,47,97,32,98>>), RN(<<35>>), <<120>>}

Valid == {[body |-> p \o Id1 \o s, x |-> [r |-> "ok", t |-> "direct", id |-> Id1]] : p \in Prefixes, s \in Suffixes}
   \cup {[body |-> p \o i \o s, x |-> [r |-> "ok", t |-> "direct", id |-> LowerAll(i)]] : p \in Prefixes, s \in Suffixes, i \in {Id2, Id3}}
   \cup {[body |-> p \o PrintSym(n) \o s, x |-> [r |-> "ok", t |-> "sym", name |-> n, oid |-> <<>>]] : p \in Prefixes, n \in Names, s \in Suffixes}
   \cup {[body |-> p \o PrintPeeled(i, n) \o s, x |-> [r |-> "ok", t |-> "sym", name |-> n, oid |-> <<LowerAll(i)>>]] :
           p \in Prefixes, n \in {n \in Names : StartsWith(n, sRefs)}, s \in Suffixes, i \in {Id1, Id3}}

\* Damaged ids: every single position replaced, one digit more or less, and files without any line
Bad == {[i \in 1..40 |-> IF i = k THEN b ELSE Id1[i]] : k \in 1..40, b \in {103, 45, 0, 58, 64, 96, 71}}
   \cup {SubSeq(Id1, 1, n) : n \in {1, 2, 4, 20, 38, 39}} \cup {Id1 \o <<48>>, Id1 \o <<48, 48>>, Id1 \o Id1, <<120>>}
Invalid == {[body |-> p \o b \o s, x |-> Err] : p \in {<<>>, <<LF>>}, b \in Bad, s \in {<<>>, <<LF>>}}
   \cup {[body |-> b \o <<SP>> \o RN(<<120>>), x |-> Err] : b \in {b \in Bad : ~Contains(b, 32)}}
   \cup {[body |-> b \o <<SP>> \o i \o q, x |-> Err] : b \in {b \in Bad : ~Contains(b, 32)}, i \in {Id2, Id3}, q \in {<<>>, <<LF>>}}
   \cup {[body |-> b \o <<SP>> \o <<120>> \o <<SP>> \o i, x |-> Err] : b \in {b \in Bad : ~Contains(b, 32)}, i \in {Id3}}
   \* whatever else a line begins with, it is not skipped
   \cup {[body |-> b \o q \o Id1 \o s, x |-> Err] : b \in {<<b>> : b \in 0..255 \ {LF, SP, HASH, SLASH}}, s \in {<<>>, <<LF>>},
                                                   q \in {<<>>, <<120, LF>>, <<HASH, LF>>, <<SP>>, <<59, 120, SP, 121, LF>>}}
   \cup {[body |-> p \o q, x |-> Err] : p \in {p \in Prefixes : ~Contains(p, 58) \/ p[1] = HASH}, q \in {<<>>, <<LF>>, <<HASH>>, <<SP>>, <<SP, SP, LF>>}}

Spec == x \in Valid \cup Invalid /\ [][FALSE /\ x' = x]_x

RoundTrip == ParseRef(x.body) = x.x
Emit == CSVWrite("%1$s", <<ToJson([k |-> "ref", src |-> "printed", body |-> x.body])>>, IOEnv.OUT)
=============================================================================
