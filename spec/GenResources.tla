---------------------------- MODULE GenResources ----------------------------
(* Programs: sequences of operations on a handle, of git, of the clock, and *)
(* of failures, which are repeated many times.                              *)
EXTENDS Json, IOUtils, CSV, TLC, Sequences, Naturals

CONSTANTS Whole, Longest

VARIABLE p

Ops == {"blob", "commit", "tag", "cut", "whole", "chain", "broken", "other", "absent", "raw", "hold", "peel", "loop", "nothing",
        "badref", "reader", "heads", "names", "same", "new", "open", "nowhere", "fail", "deny", "opens", "come", "bad", "half",
        "clock", "threads", "anew", "replace", "absents", "fresh", "moving", "alien", "lone"}

Init == p = <<>>
Next == Len(p) < Longest /\ \E o \in Ops : p' = Append(p, o)
Spec == Init /\ [][Next]_p

\* All of the shorter ones, or one which is complete
Emit == (p # <<>> /\ (Whole => Len(p) = Longest)) => CSVWrite("%1$s", <<ToJson([ops |-> p])>>, IOEnv.OUT)
=============================================================================
