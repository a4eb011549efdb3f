------------------------------ MODULE GenIndex ------------------------------
(* Indexes over all small sets of ids which share prefixes and lie at the   *)
(* borders of fan-out buckets: encoding, decoding and the fan-out and       *)
(* binary search procedure agree with the set.  Also all distributions of   *)
(* a few ids over two packs.                                                *)
EXTENDS PackFormat, Json, IOUtils, CSV

CONSTANT Skew     \* 0; another value makes the search procedure wrong

VARIABLE x

Id(a, b, c) == [i \in 1..20 |-> IF i = 1 THEN a ELSE IF i = 20 THEN c ELSE b]
Pool == {Id(0, 0, 0), Id(0, 0, 1), Id(0, 255, 255), Id(1, 0, 0), Id(127, 9, 1), Id(128, 9, 1), Id(128, 9, 2), Id(255, 255, 254), Id(255, 255, 255)}
More == Pool \cup {Id(0, 0, 2), Id(128, 9, 0), Id(128, 9, 3), Id(2, 2, 2), Id(254, 255, 255), Id(255, 0, 0)}

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A n \in S : Cmp(m, n) <= 0 IN <<m>> \o Sorted(S \ {m})

B4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Zero(n) == [i \in 1..n |-> 0]

\* Every second offset is stored in the table of 64-bit offsets when wide
Off(k) == 12 + 300 * k
Wide(k, n, w) == w /\ k % 2 = 1 /\ k < n
WideNo(k) == (k - 1) \div 2
Encode(S, v, w) ==
    LET s == Sorted(S)
        n == Len(s)
        fan == Concat([b \in 1..256 |-> B4(Cardinality({i \in S : i[1] < b}))])
        \* 64-bit offsets are beyond 2^32
        big == Concat([k \in 1..n |-> IF Wide(k, n, w) THEN <<0, 0, 0, 1>> \o B4(Off(k)) ELSE <<>>])
    IN  IF v = 1 THEN fan \o Concat([k \in 1..n |-> B4(Off(k)) \o s[k]]) \o Zero(40)
        ELSE <<255, 116, 79, 99, 0, 0, 0, 2>> \o fan \o Concat(s) \o Zero(4 * n)
               \o Concat([k \in 1..n |-> IF Wide(k, n, w) THEN <<128, 0, 0, WideNo(k)>> ELSE B4(Off(k))]) \o big \o Zero(40)

OffOf(k, n, v, w) == IF v = 2 /\ Wide(k, n, w) THEN <<4096, Off(k)>> ELSE <<0, Off(k)>>

Sets == {S \in SUBSET Pool : Cardinality(S) <= 4} \cup {Pool}
Four == {Id(0, 0, 0), Id(0, 0, 1), Id(128, 9, 1), Id(255, 255, 255)}

Spec == /\ \/ x \in [k : {"index"}, ids : Sets, v : {1, 2}, w : {FALSE, TRUE}] /\ (x.w => x.v = 2 /\ Cardinality(x.ids) >= 2)
           \/ x \in [k : {"packs"}, at : [Four -> {0, 1, 2, 3}], v : {1, 2}]
        /\ [][FALSE /\ x' = x]_x

LookupSkewed(f, id) == Search(f, id, (IF id[1] = 0 THEN 0 ELSE FanOut(f, id[1] - 1)) + 1 + Skew, FanOut(f, id[1]) + 1)

Faithful ==
    x.k = "index" =>
    LET f == Encode(x.ids, x.v, x.w)
        s == Sorted(x.ids)
        n == Len(s)
    IN  /\ WellFormedIndex(f)
        /\ Listed(f) = [k \in 1..n |-> [id |-> ToHex(s[k]), off |-> OffOf(k, n, x.v, x.w)]]
        /\ \A q \in More : LET i == LookupSkewed(f, q) IN IF q \in x.ids THEN i # 0 /\ IdxId(f, i) = q ELSE i = 0

Emit == CSVWrite("%1$s", <<ToJson(
          IF x.k = "index" THEN [k |-> "index", v |-> x.v, w |-> x.w, ids |-> Sorted({ToHex(i) : i \in x.ids}), q |-> Sorted({ToHex(i) : i \in More})]
          ELSE [k |-> "packs", v |-> x.v, a |-> Sorted({ToHex(i) : i \in {i \in Four : x.at[i] \in {1, 3}}}),
                b |-> Sorted({ToHex(i) : i \in {i \in Four : x.at[i] \in {2, 3}}}), q |-> Sorted({ToHex(i) : i \in Four})])>>, IOEnv.OUT)
=============================================================================
