------------------------------- MODULE Ids -------------------------------
(* Ids (20 bytes) and short ids (2 to 20 bytes): text form, order, prefix   *)
(* order.                                                                   *)
EXTENDS Bytes

\* What parsing a text gives: <<>> (rejected) or <<the text of the id>>
ParseId(t) == IF Len(t) = 40 /\ AllHex(t) THEN <<LowerAll(t)>> ELSE <<>>
ParseShort(t) == IF Len(t) \in 4..40 /\ Len(t) % 2 = 0 /\ AllHex(t) THEN <<LowerAll(t)>> ELSE <<>>

\* Text order of the hexadecimal forms decides
CmpIds(a, b) == Cmp(ToHex(a), ToHex(b))

IsPrefix(s, a) == Len(s) <= Len(a) /\ \A i \in 1..Len(s) : s[i] = a[i]

\* A short id is equal to the id it spells out, comes before those it is a
\* proper prefix of, and compares with others by the first difference
CmpShort(s, a) ==
    IF s = a THEN 0
    ELSE IF IsPrefix(s, a) THEN -1
    ELSE LET i == CHOOSE i \in 1..Len(s) : s[i] # a[i] /\ \A k \in 1..(i - 1) : s[k] = a[k]
         IN  IF s[i] < a[i] THEN -1 ELSE 1

\* Where a search in a sorted list has to end: before everything not smaller
Place(s, l) == Len(SelectSeq(l, LAMBDA a : CmpShort(s, a) > 0))
=============================================================================
