------------------------------- MODULE Delta -------------------------------
(* Deltas: base length, result length, then instructions which copy a range *)
(* of the base or insert bytes given in the delta.  A delta is first taken  *)
(* apart into the list of segments it selects:                              *)
(*   [r |-> "ok", segs]      it is valid for a base of this length          *)
(*   [r |-> "may", segs]     a length is not written in the shortest form:  *)
(*                           exactly this result, or an error               *)
(*   [r |-> "err"]           it contradicts the base, or is cut off         *)
(* Segments: <<"b", offset, length>> of the base, <<"d", ...>> of the delta *)
EXTENDS Bytes

Bad == [r |-> "err"]

Limit == 1073741824      \* no length considered here reaches 2^30

\* Groups of 7 bits, least significant first
RECURSIVE GroupsEnd(_, _)
GroupsEnd(d, i) == IF i > Len(d) THEN 0 ELSE IF d[i] < 128 THEN i ELSE GroupsEnd(d, i + 1)

RECURSIVE GroupsVal(_, _, _)
GroupsVal(d, i, e) ==       \* Limit if not smaller
    IF i > e THEN 0
    ELSE LET hi == GroupsVal(d, i + 1, e)
             g == d[i] % 128
         IN  IF hi >= Limit \div 128 THEN Limit ELSE hi * 128 + g

\* [ok, val, next, short]: a length starting at i
LenAt(d, i) ==
    LET e == GroupsEnd(d, i) IN
    IF e = 0 THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, val |-> GroupsVal(d, i, e), next |-> e + 1, short |-> e = i \/ d[e] # 0]

Bit(b, k) == (b \div k) % 2 = 1

\* An instruction at i: [ok, seg, next]
InstrAt(d, i, baseLen) ==
    LET op == d[i] IN
    IF op = 0 THEN [ok |-> FALSE]
    ELSE IF op < 128 THEN
        IF i + op > Len(d) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, seg |-> <<"d", i + 1, op>>, next |-> i + op + 1]
    ELSE
    LET Flag(k) == IF Bit(op, k) THEN 1 ELSE 0
        n == Flag(1) + Flag(2) + Flag(4) + Flag(8) + Flag(16) + Flag(32) + Flag(64)
        Arg(k, p) == IF Bit(op, k) THEN d[i + p] ELSE 0
    IN  IF i + n > Len(d) THEN [ok |-> FALSE]
        ELSE
    LET o1 == Arg(1, 1)
        o2 == Arg(2, 1 + Flag(1))
        o3 == Arg(4, 1 + Flag(1) + Flag(2))
        o4 == Arg(8, 1 + Flag(1) + Flag(2) + Flag(4))
        q == Flag(1) + Flag(2) + Flag(4) + Flag(8)
        s1 == Arg(16, q + 1)
        s2 == Arg(32, q + 1 + Flag(16))
        s3 == Arg(64, q + 1 + Flag(16) + Flag(32))
        size0 == s1 + 256 * s2 + 65536 * s3
        size == IF size0 = 0 THEN 65536 ELSE size0
        off == o1 + 256 * o2 + 65536 * o3 + 16777216 * o4
    IN  IF o4 >= 64 THEN [ok |-> FALSE]
        ELSE IF off + size > baseLen THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE, seg |-> <<"b", off + 1, size>>, next |-> i + n + 1]

RECURSIVE Instrs(_, _, _)
Instrs(d, i, baseLen) ==        \* [ok, segs]
    IF i > Len(d) THEN [ok |-> TRUE, segs |-> <<>>]
    ELSE LET x == InstrAt(d, i, baseLen) IN
         IF ~x.ok THEN [ok |-> FALSE]
         ELSE LET rest == Instrs(d, x.next, baseLen) IN
              IF rest.ok THEN [ok |-> TRUE, segs |-> <<x.seg>> \o rest.segs] ELSE rest

RECURSIVE SumLen(_)
SumLen(segs) == IF segs = <<>> THEN 0 ELSE segs[1][3] + SumLen(Tail(segs))

Segments(d, baseLen) ==
    LET b == LenAt(d, 1) IN
    IF ~b.ok THEN Bad
    ELSE LET n == LenAt(d, b.next) IN
    IF ~n.ok \/ b.val # baseLen THEN Bad
    ELSE LET x == Instrs(d, n.next, baseLen) IN
    IF ~x.ok THEN Bad
    ELSE IF SumLen(x.segs) # n.val THEN Bad
    ELSE [r |-> IF b.short /\ n.short THEN "ok" ELSE "may", segs |-> x.segs]

SegBytes(seg, d, base) == IF seg[1] = "b" THEN Sub(base, seg[2], seg[2] + seg[3] - 1) ELSE Sub(d, seg[2], seg[2] + seg[3] - 1)

RECURSIVE Flatten(_, _, _)
Flatten(segs, d, base) == IF segs = <<>> THEN <<>> ELSE SegBytes(segs[1], d, base) \o Flatten(Tail(segs), d, base)

\* The result: [r |-> "ok" or "may", body] or an error
Apply(d, base) ==
    LET s == Segments(d, Len(base)) IN
    IF s.r = "err" THEN Bad ELSE [r |-> s.r, body |-> Flatten(s.segs, d, base)]

---------------------------------------------------------------------------
(* The encoder: instructions are [op |-> "copy", off, len, flags] with any  *)
(* superset `flags` of the flags needed, or [op |-> "insert", data].        *)

RECURSIVE PrintLen(_)
PrintLen(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o PrintLen(n \div 128)

NeedFlags(off, len) ==
    (IF off % 256 # 0 THEN {1} ELSE {}) \cup (IF (off \div 256) % 256 # 0 THEN {2} ELSE {})
    \cup (IF (off \div 65536) % 256 # 0 THEN {4} ELSE {}) \cup (IF off \div 16777216 # 0 THEN {8} ELSE {})
    \cup (IF len = 65536 THEN {} ELSE (IF len % 256 # 0 THEN {16} ELSE {})
            \cup (IF (len \div 256) % 256 # 0 THEN {32} ELSE {}) \cup (IF len \div 65536 # 0 THEN {64} ELSE {}))

PrintInstr(i) ==
    IF i.op = "insert" THEN <<Len(i.data)>> \o i.data
    ELSE
    LET F == i.flags \cup NeedFlags(i.off, i.len)
        len == IF i.len = 65536 /\ F \cap {64} = {} THEN 0 ELSE i.len
        V(k) == CASE k = 1 -> i.off % 256 [] k = 2 -> (i.off \div 256) % 256 [] k = 4 -> (i.off \div 65536) % 256
                  [] k = 8 -> i.off \div 16777216 [] k = 16 -> len % 256 [] k = 32 -> (len \div 256) % 256
                  [] k = 64 -> len \div 65536
        Put(k) == IF k \in F THEN <<V(k)>> ELSE <<>>
        S(k) == IF k \in F THEN k ELSE 0
    IN  <<128 + S(1) + S(2) + S(4) + S(8) + S(16) + S(32) + S(64)>>
          \o Put(1) \o Put(2) \o Put(4) \o Put(8) \o Put(16) \o Put(32) \o Put(64)

ResultLen(is) == LET L[k \in 0..Len(is)] == IF k = 0 THEN 0 ELSE L[k - 1] + (IF is[k].op = "insert" THEN Len(is[k].data) ELSE is[k].len)
                 IN L[Len(is)]

PrintDelta(baseLen, is) == PrintLen(baseLen) \o PrintLen(ResultLen(is)) \o Concat([k \in 1..Len(is) |-> PrintInstr(is[k])])

\* What the instructions mean
Meaning(is, base) == Concat([k \in 1..Len(is) |->
    IF is[k].op = "insert" THEN is[k].data ELSE Sub(base, is[k].off + 1, is[k].off + is[k].len)])
=============================================================================
