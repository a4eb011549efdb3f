------------------------------- MODULE GenIds -------------------------------
(* Enumerates texts, pairs and sorted lists; checks that the definitions    *)
(* agree with each other (the order is total and the order of the texts,    *)
(* a short id's place is right before the ids it is a prefix of); writes    *)
(* them as cases for the real code.                                         *)
EXTENDS Ids, FiniteSets, Json, IOUtils, CSV, TLC

VARIABLE x

Pad(s) == s \o [i \in 1..(20 - Len(s)) |-> 0]
Pad255(s) == s \o [i \in 1..(20 - Len(s)) |-> 255]
Vals == {0, 1, 15, 16, 127, 128, 255}
Heads == {<<a, b>> : a \in {0, 1, 127, 128, 255}, b \in {0, 128, 255}}
Pool == {Pad(h) : h \in Heads} \cup {Pad255(h) : h \in Heads} \cup
        {[i \in 1..20 |-> IF i = k THEN 128 ELSE IF i < k THEN 1 ELSE 0] : k \in {1, 2, 3, 10, 19, 20}}
Small == {Pad(<<a, b>>) : a \in {0, 255}, b \in {0, 255}} \cup {Pad255(<<a, b>>) : a \in {0, 255}, b \in {0, 255}}

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A n \in S : Cmp(m, n) <= 0 IN <<m>> \o Sorted(S \ {m})

Texts == {[i \in 1..n |-> c] : n \in 0..48, c \in {48, 97, 70}}
    \cup {[i \in 1..n |-> IF i = k THEN c ELSE 97] : n \in {4, 6, 40}, k \in {1, 2, 3, 4, 5, 6, 39, 40}, c \in {0, 47, 48, 57, 58, 64, 65, 70, 71, 96, 97, 102, 103, 128, 255}}

Shorts == {SubSeq(i, 1, n) : i \in Small \cup {Pad(<<0, 127>>), Pad(<<128, 0>>)}, n \in {2, 3, 19, 20}}

Cases == {[k |-> "parse", text |-> t] : t \in Texts}
    \cup {[k |-> "cmp", a |-> a, b |-> b, s |-> SubSeq(b, 1, n)] : a \in Pool, b \in Pool, n \in {2, 20}}
    \cup {[k |-> "search", ids |-> Sorted(S), short |-> s] : S \in {S \in SUBSET Small : Cardinality(S) <= 4}, s \in Shorts}

Spec == x \in Cases /\ [][FALSE /\ x' = x]_x

Consistent ==
    CASE x.k = "parse" -> /\ (ParseId(x.text) # <<>> => ParseShort(x.text) = ParseId(x.text) /\ ToHex(FromHex(x.text)) = ParseId(x.text)[1])
                          /\ (ParseShort(x.text) # <<>> => ToHex(FromHex(x.text)) = ParseShort(x.text)[1])
      [] x.k = "cmp" -> /\ CmpIds(x.a, x.b) = Cmp(x.a, x.b)
                        /\ CmpIds(x.a, x.b) = 0 - CmpIds(x.b, x.a)
                        /\ (CmpIds(x.a, x.b) = 0) = (x.a = x.b)
                        /\ CmpShort(x.b, x.a) = CmpIds(x.b, x.a)
                        /\ CmpShort(x.s, x.a) = Cmp(x.s, x.a)
      [] x.k = "search" ->
           \* all ids the short id is a prefix of are in one run which starts at its place
           LET p == Place(x.short, x.ids)
               M == {i \in 1..Len(x.ids) : IsPrefix(x.short, x.ids[i])}
           IN  M = (p + 1)..(p + Cardinality(M))

Emit == CSVWrite("%1$s", <<ToJson(x @@ [src |-> "printed"])>>, IOEnv.OUT)
=============================================================================
