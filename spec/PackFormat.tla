----------------------------- MODULE PackFormat -----------------------------
(* Packs and their indexes.  Offsets are pairs <<hi, lo>> with lo < 2^20.   *)
(*                                                                          *)
(* A pack: [idx, entries], where idx is the bytes of the index file and an  *)
(* entry is [off, hdr, ext, data, z]: type and length, base reference, what *)
(* its compressed stream inflates to, and whether this stream is complete   *)
(* ("ok"), ends before its trailer ("cut") or is not a zlib stream ("bad"). *)
EXTENDS Delta, ObjFormat, FiniteSets

U == 1048576
Huge == <<0 - 1, 0>>

---------------------------------------------------------------------------
(* Entries                                                                  *)

\* Type and length: [ok, type, len, short]
HeaderOf(h) ==
    IF h = <<>> \/ GroupsEnd(h, 1) # Len(h) THEN [ok |-> FALSE]
    ELSE LET rest == GroupsVal(h, 2, Len(h)) IN
         [ok |-> TRUE, type |-> (h[1] \div 16) % 8, len |-> IF rest >= Limit \div 16 THEN Limit ELSE (h[1] % 16) + 16 * rest,
          short |-> Len(h) = 1 \/ h[Len(h)] # 0]

\* Distance to the base: most significant group first, each continuation adds one
RECURSIVE OfsVal(_, _, _)
OfsVal(e, i, v) ==
    LET l == v[2] * 128 + (e[i] % 128)
        w == <<v[1] * 128 + (l \div U), l % U>>
    IN  IF v[1] >= U THEN Huge
        ELSE IF e[i] < 128 THEN w
        ELSE OfsVal(e, i + 1, IF w[2] + 1 = U THEN <<w[1] + 1, 0>> ELSE <<w[1], w[2] + 1>>)

DistanceOf(e) == IF e = <<>> \/ GroupsEnd(e, 1) # Len(e) THEN Huge ELSE OfsVal(e, 1, <<0, 0>>)

Minus(a, b) ==      \* Huge if negative
    IF b = Huge \/ a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]) THEN Huge
    ELSE IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + U - b[2]>>

\* The encoders
RECURSIVE PrintGroups(_)
PrintGroups(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o PrintGroups(n \div 128)
PrintHeader(type, n) == IF n < 16 THEN <<16 * type + n>> ELSE <<128 + 16 * type + (n % 16)>> \o PrintGroups(n \div 16)
RECURSIVE PrintOfsHi(_)
PrintOfsHi(n) == IF n < 128 THEN <<128 + n>> ELSE PrintOfsHi(n \div 128 - 1) \o <<128 + (n % 128)>>
PrintOfs(n) == IF n < 128 THEN <<n>> ELSE PrintOfsHi(n \div 128 - 1) \o <<n % 128>>

---------------------------------------------------------------------------
(* Indexes                                                                  *)

IsV2(x) == Len(x) >= 8 /\ Sub(x, 1, 4) = <<255, 116, 79, 99>>
Base(x) == IF IsV2(x) THEN 8 ELSE 0

Off32(x, p) == <<x[p] * 16 + (x[p + 1] \div 16), (x[p + 1] % 16) * 65536 + x[p + 2] * 256 + x[p + 3]>>
Off64(x, p) == IF x[p] # 0 \/ x[p + 1] # 0 \/ x[p + 2] > 7 THEN Huge
               ELSE <<(x[p + 5] \div 16) + 16 * (x[p + 4] + 256 * (x[p + 3] + 256 * x[p + 2])),
                      (x[p + 5] % 16) * 65536 + x[p + 6] * 256 + x[p + 7]>>
Small32(x, p) == x[p] * 16777216 + x[p + 1] * 65536 + x[p + 2] * 256 + x[p + 3]   \* if the value is small

FanOut(x, b) == Small32(x, Base(x) + 4 * b + 1)
Count(x) == FanOut(x, 255)

IdxId(x, k) == IF IsV2(x) THEN Sub(x, 1032 + 20 * (k - 1) + 1, 1032 + 20 * k)
               ELSE Sub(x, 1024 + 24 * (k - 1) + 5, 1024 + 24 * k)
IdxOff(x, k) ==
    IF ~IsV2(x) THEN Off32(x, 1024 + 24 * (k - 1) + 1)
    ELSE LET n == Count(x)
             p == 1032 + 24 * n + 4 * (k - 1) + 1
         IN  IF x[p] < 128 THEN Off32(x, p)
             ELSE Off64(x, 1032 + 28 * n + 8 * (Small32(<<x[p] - 128>> \o Sub(x, p + 1, p + 3), 1)) + 1)

\* What the index says: ids with their offsets
Listed(x) == [k \in 1..Count(x) |-> [id |-> ToHex(IdxId(x, k)), off |-> IdxOff(x, k)]]

WellFormedIndex(x) ==
    LET n == Count(x) IN
    /\ \A k \in 2..n : Cmp(IdxId(x, k - 1), IdxId(x, k)) = -1
    /\ \A b \in 0..255 : FanOut(x, b) = Cardinality({k \in 1..n : IdxId(x, k)[1] <= b})
    /\ IF IsV2(x) THEN Len(x) >= 1032 + 28 * n + 40 /\ (Len(x) - (1032 + 28 * n + 40)) % 8 = 0 ELSE Len(x) = 1024 + 24 * n + 40

\* The procedure: fan-out table, then a binary search between its bounds
RECURSIVE Search(_, _, _, _)
Search(x, id, lo, hi) ==        \* lo..hi-1 are the candidates, counted from 1
    IF lo >= hi THEN 0
    ELSE LET m == (lo + hi) \div 2
             c == Cmp(IdxId(x, m), id)
         IN  IF c = 0 THEN m ELSE IF c < 0 THEN Search(x, id, m + 1, hi) ELSE Search(x, id, lo, m)

Lookup(x, id) == Search(x, id, (IF id[1] = 0 THEN 0 ELSE FanOut(x, id[1] - 1)) + 1, FanOut(x, id[1]) + 1)

---------------------------------------------------------------------------
(* Objects                                                                  *)

KindOf(type) == CASE type = 1 -> "commit" [] type = 2 -> "tree" [] type = 3 -> "blob" [] type = 4 -> "tag" [] OTHER -> "none"

Fail == [r |-> "err"]
Unknown == [r |-> "any"]

\* The stored bytes of an entry, of the recorded length
Payload(e, h) ==
    IF e.z = "bad" THEN Fail
    ELSE IF Len(e.data) # h.len THEN Fail
    ELSE [r |-> IF e.z = "ok" /\ h.short THEN "ok" ELSE "may", body |-> e.data]

Weaker(a, b) == IF a = "ok" /\ b = "ok" THEN "ok" ELSE "may"

At(p, off) == {k \in 1..Len(p.entries) : p.entries[k].off = off}

\* [r, kind, body]; fuel runs out only on cycles
RECURSIVE Resolve(_, _, _, _)
Resolve(p, listed, off, fuel) ==
    IF fuel = 0 THEN Fail
    ELSE IF At(p, off) = {} THEN Unknown
    ELSE
    LET e == p.entries[CHOOSE k \in At(p, off) : TRUE]
        h == HeaderOf(e.hdr)
    IN  IF ~h.ok THEN Unknown
        ELSE IF h.type \in {0, 5} THEN Fail
        ELSE IF h.type \in 1..4 THEN
            LET y == Payload(e, h) IN IF y.r = "err" THEN Fail ELSE [r |-> y.r, kind |-> KindOf(h.type), body |-> y.body]
        ELSE
    LET dist == DistanceOf(e.ext)
        from == IF h.type = 6 THEN Minus(off, dist)
                ELSE LET S == {k \in 1..Len(listed) : listed[k].id = ToHex(e.ext)} IN
                     IF S = {} THEN Huge ELSE listed[CHOOSE k \in S : TRUE].off
    IN  IF from = Huge THEN Fail
        ELSE
    LET b == Resolve(p, listed, from, fuel - 1) IN
        IF b.r \in {"err", "any"} THEN b
        ELSE
    LET y == Payload(e, h) IN
        IF y.r = "err" THEN Fail
        ELSE LET a == Apply(y.body, b.body) IN
             IF a.r = "err" THEN Fail
             ELSE [r |-> Weaker(Weaker(y.r, a.r), b.r), kind |-> b.kind, body |-> a.body]

ReadAt(p, listed, off) == Resolve(p, listed, off, Len(p.entries) + 1)

\* An observation o of reading an object; x as given by ReadAt or [r |-> "nf"]
ReadOk(o, x) ==
    CASE o.r = "raw" -> x.r = "any" \/ (x.r \in {"ok", "may"} /\ o.body = x.body)
      [] o.r = "rawerr" -> x.r \in {"any", "may", "err"}
      [] o.r = "rawnf" -> x.r \in {"any", "nf"}
      [] OTHER ->
           CASE x.r = "any" -> o.r \in {"ok", "err", "nf"}
             [] x.r = "nf" -> o.r = "nf"
             [] x.r = "err" -> o.r = "err"
             [] x.r = "may" -> o.r = "err" \/ OutcomeOk(o, ParseBody(x.kind, x.body))
             [] x.r = "ok" -> OutcomeOk(o, ParseBody(x.kind, x.body))
=============================================================================
