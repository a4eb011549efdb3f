------------------------------ MODULE GenDelta ------------------------------
(* Enumerates deltas, checks that applying them gives what the instructions *)
(* mean and that contradicting ones are rejected, and writes them as cases. *)
EXTENDS Delta, Json, IOUtils, CSV, TLC

VARIABLE x

B3 == <<97, 0, 255>>
B300 == [i \in 1..300 |-> (i * 7 + i \div 256) % 256]
Bases == {<<>>, <<7>>, B3}

FlagSets == {{}, {1}, {2}, {4}, {8}, {16}, {32}, {64}, {1, 2, 4, 8}, {16, 32, 64}, {1, 2, 4, 8, 16, 32, 64}, {2, 64}, {1, 4, 32}, {8, 16}}
Copies(b, F) == {[op |-> "copy", off |-> o, len |-> n, flags |-> f] :
                   <<o, n, f>> \in {<<o, n, f>> \in (0..Len(b)) \X (1..Len(b)) \X F : o + n <= Len(b)}}
Ins(n, v) == [op |-> "insert", data |-> [i \in 1..n |-> (v + i) % 256]]
Inserts == {Ins(1, 0), Ins(2, 127), Ins(127, 9)}
FarCopies == {[op |-> "copy", off |-> o, len |-> n, flags |-> f] :
                 o \in {0, 1, 255, 256, 257}, n \in {1, 2, 43}, f \in FlagSets} \cup
             {[op |-> "copy", off |-> o, len |-> n, flags |-> {}] : o \in {0, 1}, n \in {255, 256, 257, 299}}

Good == {[base |-> b, is |-> <<>>] : b \in Bases}
   \cup UNION {{[base |-> b, is |-> <<i>>] : i \in Copies(b, FlagSets) \cup Inserts} : b \in Bases}
   \cup UNION {{[base |-> b, is |-> <<i, j>>] : i \in Copies(b, {{}}) \cup {Ins(1, 0)}, j \in Copies(b, {{}, {16, 32, 64}}) \cup {Ins(2, 127)}} : b \in Bases}
   \cup {[base |-> B300, is |-> <<i>>] : i \in FarCopies}
   \cup {[base |-> B300, is |-> <<i, Ins(127, 3), i>>] : i \in {[op |-> "copy", off |-> 44, len |-> 256, flags |-> {}], [op |-> "copy", off |-> 0, len |-> 300, flags |-> {}]}}
   \cup {[base |-> B3, is |-> <<i, j, k>>] : i \in Copies(B3, {{}}), j \in {Ins(1, 5)}, k \in Copies(B3, {{}})}
   \cup {[base |-> B3, is |-> [k \in 1..40 |-> Ins(127, k)]]}

\* Every way of damaging a delta in one place
Delta(g) == PrintDelta(Len(g.base), g.is)
HdrLen(g) == Len(PrintLen(Len(g.base))) + Len(PrintLen(ResultLen(g.is)))
Instructions(g) == From(Delta(g), HdrLen(g) + 1)
Rebuilt(g, b, n, rest) == PrintLen(b) \o PrintLen(n) \o rest
Had(b, o, m) == IF o >= b THEN 0 ELSE IF o + m > b THEN b - o ELSE m
Pert == {0 - 2, 0 - 1, 1, 2, 256, 100000}
Damaged(g) ==
    LET n == ResultLen(g.is)
        b == Len(g.base)
        is == Instructions(g)
    IN  {Sub(Delta(g), 1, k) : k \in {k \in 0..(Len(Delta(g)) - 1) : k < 12 \/ k > Len(Delta(g)) - 3}}
        \cup {Rebuilt(g, b + d, n, is) : d \in {d \in Pert : b + d >= 0}}
        \cup {Rebuilt(g, b, n + d, is) : d \in {d \in Pert : n + d >= 0}}
        \cup {Rebuilt(g, b, n, is \o <<0>>), Rebuilt(g, b, n, <<0>> \o is)}
        \cup {Rebuilt(g, b, n + m, is \o PrintInstr([op |-> "copy", off |-> o, len |-> m, flags |-> {}])) :
                <<o, m>> \in {<<b, 1>>, <<b + 1, 1>>, <<16777216, 1>>, <<0, b + 1>>, <<0, 65536>>, <<1, 16777215>>, <<1000000000, 1>>}}
        \cup {Rebuilt(g, b, n + 1, is \o <<128 + 8 + 16, 255, 1>>)}
        \cup {Rebuilt(g, b, n + k, is \o [i \in 1..j |-> IF i = 1 THEN k ELSE 65]) : <<k, j>> \in {<<1, 1>>, <<2, 2>>, <<127, 127>>, <<127, 1>>}}
        \* the announced length fits what there is to be had: of a copy, of data to insert, of an instruction
        \cup {Rebuilt(g, b, n + Had(b, o, m), is \o PrintInstr([op |-> "copy", off |-> o, len |-> m, flags |-> {}])) :
                <<o, m>> \in {<<b, 1>>, <<b + 1, 1>>, <<16777216, 1>>, <<0, b + 1>>, <<0, 65536>>, <<1, 16777215>>, <<b - (b \div 2), b>>}
                            \ {<<0, 0>>, <<b, 0>>}}
        \cup {Rebuilt(g, b, n + j - 1, is \o [i \in 1..j |-> IF i = 1 THEN k ELSE 65]) : <<k, j>> \in {<<1, 1>>, <<2, 2>>, <<127, 127>>, <<127, 1>>}}
        \cup {Rebuilt(g, b, n, is \o <<0>>), Rebuilt(g, b, n, is \o <<0, 0>>)}
        \cup IF g.is = <<>> THEN {}
             ELSE LET front == Sub(g.is, 1, Len(g.is) - 1)
                      last == PrintInstr(g.is[Len(g.is)])
                  IN  {Rebuilt(g, b, m, From(PrintDelta(b, front), Len(PrintLen(b)) + Len(PrintLen(ResultLen(front))) + 1) \o Sub(last, 1, k)) :
                         <<m, k>> \in {<<ResultLen(front) + e, k>> : e \in 0..2, k \in {k \in 1..(Len(last) - 1) : k < 4}}}

SmallGood == {g \in Good : Len(g.base) <= 3 /\ Len(g.is) <= 2 /\ \A k \in 1..Len(g.is) : g.is[k].op = "insert" \/ g.is[k].flags = {}}

Spec == /\ \/ x \in {[k |-> "good", base |-> g.base, delta |-> Delta(g), body |-> Meaning(g.is, g.base)] : g \in Good}
           \/ /\ IOEnv.GEN # "good"
              /\ x \in UNION {{[k |-> "bad", base |-> g.base, delta |-> d] : d \in Damaged(g)} : g \in SmallGood}
        /\ [][FALSE /\ x' = x]_x

Faithful == x.k = "good" => Apply(x.delta, x.base) = [r |-> "ok", body |-> x.body]
Rejected == x.k = "bad" => Apply(x.delta, x.base).r = "err"
Emit == (IOEnv.GEN = "bad" => x.k = "bad") =>
        CSVWrite("%1$s", <<ToJson([k |-> "delta", base |-> x.base, delta |-> x.delta])>>, IOEnv.OUT)
=============================================================================
