------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of integers in 0..255.                        *)
EXTENDS Naturals, Integers, Sequences

LF  == 10
NUL == 0
SP  == 32

\* ASCII strings used by git's formats
sTree      == <<116,114,101,101,32>>                     \* "tree "
sParent    == <<112,97,114,101,110,116,32>>              \* "parent "
sAuthor    == <<97,117,116,104,111,114,32>>              \* "author "
sCommitter == <<99,111,109,109,105,116,116,101,114,32>>  \* "committer "
sEncoding  == <<101,110,99,111,100,105,110,103,32>>      \* "encoding "
sObject    == <<111,98,106,101,99,116,32>>               \* "object "
sType      == <<116,121,112,101,32>>                     \* "type "
sTag       == <<116,97,103,32>>                          \* "tag "
sTagger    == <<116,97,103,103,101,114,32>>              \* "tagger "
sRef       == <<114,101,102,58,32>>                      \* "ref: "
kCommit    == <<99,111,109,109,105,116>>
kTree      == <<116,114,101,101>>
kBlob      == <<98,108,111,98>>
kTag       == <<116,97,103>>

KindName(k) == CASE k = kCommit -> "commit" [] k = kTree -> "tree"
                 [] k = kBlob -> "blob" [] k = kTag -> "tag" [] OTHER -> "unknown"

Kinds == {"commit", "tree", "blob", "tag"}
KindBytes(k) == CASE k = "commit" -> kCommit [] k = "tree" -> kTree
                  [] k = "blob" -> kBlob [] k = "tag" -> kTag

Min2(a, b) == IF a < b THEN a ELSE b

\* s[i..j], empty if i > j
Sub(s, i, j) == SubSeq(s, i, j)
From(s, i) == SubSeq(s, i, Len(s))

StartsAt(s, i, p) ==
    /\ i + Len(p) - 1 <= Len(s)
    /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]

StartsWith(s, p) == StartsAt(s, 1, p)

\* The first position >= i at which s contains b, or 0 (looking at more and more at once)
RECURSIVE FindIn(_, _, _, _)
FindIn(s, b, i, w) ==
    IF i > Len(s) THEN 0
    ELSE LET e == IF i + w > Len(s) THEN Len(s) ELSE i + w
             P == {j \in i..e : s[j] = b}
         IN  IF P = {} THEN FindIn(s, b, e + 1, 2 * w) ELSE CHOOSE j \in P : \A k \in P : j <= k
Find(s, b, i) == FindIn(s, b, i, 32)

Contains(s, b) == \E j \in 1..Len(s) : s[j] = b

CountOf(s, b) == LET P[j \in 0..Len(s)] == IF j = 0 THEN 0 ELSE P[j - 1] + (IF s[j] = b THEN 1 ELSE 0)
                 IN  P[Len(s)]

RECURSIVE Repeat(_, _)
Repeat(b, n) == IF n = 0 THEN <<>> ELSE <<b>> \o Repeat(b, n - 1)

RECURSIVE Concat(_)
Concat(ss) ==
    IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1]
    ELSE LET h == Len(ss) \div 2 IN Concat(SubSeq(ss, 1, h)) \o Concat(SubSeq(ss, h + 1, Len(ss)))

IsDigit(b) == b \in 48..57
IsOctal(b) == b \in 48..55
IsHexLower(b) == IsDigit(b) \/ b \in 97..102
IsHexUpper(b) == b \in 65..70
IsHex(b) == IsHexLower(b) \/ IsHexUpper(b)
Lower(b) == IF IsHexUpper(b) THEN b + 32 ELSE b
AllHex(s) == \A i \in 1..Len(s) : IsHex(s[i])
AllHexLower(s) == \A i \in 1..Len(s) : IsHexLower(s[i])
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexVal(b) == IF IsDigit(b) THEN b - 48 ELSE Lower(b) - 87
\* The hexadecimal form of raw bytes, and back
ToHex(s) == [i \in 1..(2 * Len(s)) |->
               IF i % 2 = 1 THEN HexDigit(s[(i + 1) \div 2] \div 16) ELSE HexDigit(s[i \div 2] % 16)]
FromHex(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2 * i - 1]) + HexVal(s[2 * i])]

\* Decimal digits of a natural number
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN StripZeros(Tail(s)) ELSE s

AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
AllOctal(s) == \A i \in 1..Len(s) : IsOctal(s[i])

RECURSIVE OctalVal(_)
OctalVal(s) == IF s = <<>> THEN 0 ELSE 8 * OctalVal(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
RECURSIVE Octal(_)
Octal(n) == IF n < 8 THEN <<48 + n>> ELSE Octal(n \div 8) \o <<48 + (n % 8)>>

IsSpace(b) == b \in {9, 10, 11, 12, 13, 32}

\* Comparison of byte strings: -1, 0, 1
Cmp(a, b) ==
    LET n == Min2(Len(a), Len(b))
        D == {i \in 1..n : a[i] # b[i]}
    IN  IF D = {} THEN (IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1)
        ELSE LET i == CHOOSE i \in D : \A k \in D : i <= k IN IF a[i] < b[i] THEN -1 ELSE 1
=============================================================================
