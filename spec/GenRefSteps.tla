---------------------------- MODULE GenRefSteps ----------------------------
(* Behaviours of RefsImpl as schedules, for simulation                      *)
EXTENDS RefsImpl, Json, IOUtils, CSV

VARIABLES hist,
          plan    \* after how many hops something changes

GInit == Init /\ plan = {} /\ hist = <<[k |-> "init", files |-> {[n |-> n, c |-> files[n]] : n \in DOMAIN files}, stored |-> stored]>>

GNext ==
    \/ \E t \in Threads :
         \/ Call(t) /\ hist' = Append(hist, [k |-> "call", n |-> at'[t].n]) /\ plan' \in {S \in SUBSET (0..3) : Cardinality(S) <= 2}
         \/ hops[t] \notin plan /\ Follow(t) /\ plan' = plan /\ hist' = IF pc'[t] = "follow" THEN Append(hist, [k |-> "hop"]) ELSE hist
         \/ Return(t) /\ UNCHANGED <<hist, plan>>
    \/ /\ pc["t1"] = "follow" /\ hops["t1"] \in plan
       /\ Update
       /\ plan' = plan \ {hops["t1"]}
       /\ hist' = Append(hist,
            IF stored' # stored
            THEN [k |-> "obj", o |-> CHOOSE o \in Objects : (o \in stored) # (o \in stored'), has |-> stored \subseteq stored']
            ELSE LET D == {n \in Names : R!Content(n) # R!Content(n)'} IN
                 IF D = {} THEN [k |-> "none"]
                 ELSE LET n == CHOOSE n \in D : TRUE IN [k |-> "set", n |-> n, c |-> IF n \in DOMAIN files' THEN files'[n] ELSE Absent])

Ended == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
GSpec == GInit /\ [][~Ended /\ GNext]_<<vars, hist, plan>>
Emit == Ended => CSVWrite("%1$s", <<ToJson([k |-> "steps", hist |-> hist])>>, IOEnv.OUT)
=============================================================================
