----------------------------- MODULE GenPackRead -----------------------------
(* Behaviours of PackRead as schedules, for simulation                      *)
EXTENDS PackRead, TLC, Json, IOUtils, CSV

VARIABLE hist

GInit == Init /\ hist = <<[k |-> "init", base |-> base, bad |-> bad]>>

GStep(t) ==
    \/ Call(t) /\ hist' = Append(hist, [k |-> "call", t |-> t, e |-> obj'[t]])
    \/ (Seek(t) \/ Header(t) \/ Data(t) \/ ApplySeek(t) \/ ApplyData(t)) /\ hist' = Append(hist, [k |-> "step", t |-> t, l |-> pc[t]])
    \/ Fault(t) /\ hist' = Append(hist, [k |-> "fault", t |-> t])
    \/ (Lookup(t) \/ Apply(t)) /\ UNCHANGED hist

Ended == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
GNext == ~Ended /\ \E t \in Threads : GStep(t)
GSpec == GInit /\ [][GNext]_<<vars, hist>>

Emit == Ended => CSVWrite("%1$s", <<ToJson([k |-> "packread", hist |-> hist])>>, IOEnv.OUT)
=============================================================================
