------------------------------- MODULE Buffer -------------------------------
(* Reading a file through a buffer, one read call after the other. Each     *)
(* call delivers as many bytes as the system likes, but at least one before *)
(* the end of the file, or is interrupted.                                  *)
(*                                                                          *)
(* What is asked of the buffer is a sequence of operations                  *)
(*   until size   up to and including the next delimiter, which has to be   *)
(*                among the next `size` bytes                               *)
(*   exact size   the next `size` bytes                                     *)
(*   end size     the next `size` bytes, which have to be all there are     *)
(*   clear        forget what has been used                                 *)
(* The results must not depend on the system.                               *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS MaxLen, MaxOps, Interrupts, Bug

Min(a, b) == IF a < b THEN a ELSE b

VARIABLES
    file,     \* the content: sequence of BOOLEAN, is it the delimiter?
    prog,     \* the operations
    n,        \* the operation under way
    from,     \* where it began
    pos,      \* the next unused byte
    filled,   \* the bytes delivered so far
    base,     \* bytes before this one are forgotten
    intr,     \* interruptions which may still happen
    res       \* the results so far

vars == <<file, prog, n, from, pos, filled, base, intr, res>>

Ops == [op : {"until", "exact", "end"}, size : 0..MaxLen + 1] \cup [op : {"clear"}, size : {0}]

N == Len(file)

\* ---- what has to come out ----

Delims(f, p, size) == {q \in (p + 1)..Min(p + size, Len(f)) : f[q]}

One(f, p, o) ==
    CASE o.op = "until" ->
           IF Delims(f, p, o.size) # {}
           THEN [r |-> "at", pos |-> CHOOSE q \in Delims(f, p, o.size) : \A x \in Delims(f, p, o.size) : q <= x]
           ELSE IF p + o.size <= Len(f) THEN [r |-> "none", pos |-> p] ELSE [r |-> "eof", pos |-> p]
      [] o.op = "exact" -> IF p + o.size <= Len(f) THEN [r |-> "at", pos |-> p + o.size] ELSE [r |-> "eof", pos |-> p]
      [] o.op = "end" -> IF p + o.size = Len(f) THEN [r |-> "at", pos |-> p + o.size] ELSE [r |-> "eof", pos |-> p]
      [] o.op = "clear" -> [r |-> "at", pos |-> p]

RECURSIVE All(_, _, _)
All(f, p, ops) ==
    IF ops = <<>> THEN <<>>
    ELSE LET x == One(f, p, Head(ops)) IN <<x>> \o (IF x.r = "eof" THEN <<>> ELSE All(f, x.pos, Tail(ops)))

\* ---- how it is done ----

Init ==
    /\ file \in UNION {[1..k -> BOOLEAN] : k \in 0..MaxLen}
    /\ prog \in UNION {[1..k -> Ops] : k \in 1..MaxOps}
    /\ n = 1 /\ from = 0 /\ pos = 0 /\ filled = 0 /\ base = 0 /\ intr = Interrupts /\ res = <<>>

Over == n > Len(prog) \/ (res # <<>> /\ res[Len(res)].r = "eof")

\* Operation n ends
Ends(x, p) ==
    /\ res' = Append(res, [r |-> x, pos |-> p])
    /\ n' = n + 1 /\ pos' = p /\ from' = p

Op == prog[n]
Target == from + Op.size

\* The bytes up to `upto` have been delivered: look at the new ones
Look(upto) ==
    LET new == {q \in (pos + 1)..upto : file[q]} IN
    CASE Op.op = "until" /\ new # {} -> Ends("at", CHOOSE q \in new : \A x \in new : q <= x)
      [] upto = Target /\ ~(Op.op = "until" /\ new # {}) ->
           IF Op.op = "until" THEN Ends("none", from)
           ELSE IF Op.op = "exact" THEN Ends("at", Target)
           ELSE pos' = Target /\ UNCHANGED <<n, from, res>>
      [] OTHER -> pos' = upto /\ UNCHANGED <<n, from, res>>

\* Done without looking any further
Trivial ==
    /\ ~Over
    /\ \/ Op.op = "clear" /\ base' = pos /\ Ends("at", pos)
       \/ Op.op = "until" /\ pos = Target /\ Ends("none", from) /\ UNCHANGED base
       \/ Op.op = "exact" /\ pos = Target /\ Ends("at", Target) /\ UNCHANGED base
    /\ UNCHANGED <<file, prog, filled, intr>>

Buffered ==
    /\ ~Over /\ Op.op # "clear" /\ pos < Target
    /\ IF Bug = "stale" THEN filled > from ELSE filled >= Target
    /\ Look(Min(filled, Target))
    /\ UNCHANGED <<file, prog, filled, base, intr>>

\* A read call which asks for what is missing
Read ==
    /\ ~Over /\ Op.op # "clear" /\ pos < Target /\ filled < Target
    /\ \E k \in 0..(Target - filled) :
         /\ k <= N - filled
         /\ k = 0 => filled = N
         /\ filled' = filled + k
         /\ CASE filled' = pos -> Ends("eof", from)
              [] Bug = "once" /\ Op.op # "until" -> Ends("at", Target)
              [] OTHER -> Look(filled')
    /\ UNCHANGED <<file, prog, base, intr>>

Interrupted ==
    /\ ~Over /\ Op.op # "clear" /\ pos < Target /\ filled < Target /\ intr > 0
    /\ intr' = intr - 1
    /\ IF Bug = "interrupt" THEN Ends("eof", from) ELSE UNCHANGED <<n, from, pos, res>>
    /\ UNCHANGED <<file, prog, filled, base>>

\* Is there more?
AtEnd ==
    /\ ~Over /\ Op.op = "end" /\ pos = Target
    /\ IF filled # pos /\ Bug # "excess" THEN Ends("eof", from)
       ELSE IF filled < N THEN Ends("eof", from) ELSE Ends("at", Target)
    /\ UNCHANGED <<file, prog, filled, base, intr>>

Next == Trivial \/ Buffered \/ Read \/ Interrupted \/ AtEnd
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result(s) == [k \in 1..Len(s) |-> IF s[k].r = "eof" THEN [r |-> "eof", pos |-> 0] ELSE s[k]]

Same == Over => Result(res) = Result(All(file, 0, prog))
InBounds == base <= from /\ from <= pos /\ pos <= filled /\ filled <= N
Ends1 == <>Over
=============================================================================
