------------------------------ MODULE PackRead ------------------------------
(* Reading a pack through one handle which several threads share.           *)
(*                                                                          *)
(* The entries of a pack form chains: base[e] is the entry which e is a     *)
(* delta of, 0 if e is stored whole.  The content of an entry is the        *)
(* sequence of entries it is made of; a damaged one (bad) has none.         *)
(* The handle has one file with one cursor and one read buffer, a lock, and *)
(* a cache of reconstructed entries.  A file operation can fail at any time *)
(* (fault); this must affect that read only.                                *)
(*                                                                          *)
(* What is required: a read returns the content of the entry, whatever was  *)
(* read (or failed to be read) before, and whatever others read meanwhile.  *)
(*                                                                          *)
(* The constants select wrong designs (see PackRead*.cfg):                  *)
(*   Holds      the lock is held from moving the cursor until data is read  *)
(*   Key        "own": results are cached for the entry itself; "base"      *)
(*   Stores     "result", or "delta": what was read is cached               *)
(*   Forgets    moving the cursor empties the buffer                        *)
(*   Checks     a damaged entry is noticed before it is cached              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, N, Reads, Faults, Holds, Key, Stores, Forgets, Checks

Entries == 1..N
None == <<0>>
Error == <<-1>>

VARIABLES base, bad, cursor, buf, lock, cache, faults,
          pc, obj, chain, cur, val, res, left, hit

vars == <<base, bad, cursor, buf, lock, cache, faults, pc, obj, chain, cur, val, res, left, hit>>
static == <<base, bad>>

RECURSIVE Content(_)
Content(e) ==
    IF bad[e] THEN Error
    ELSE IF base[e] = 0 THEN <<e>>
    ELSE LET b == Content(base[e]) IN IF b = Error THEN Error ELSE Append(b, e)

Init ==
    /\ base \in [Entries -> 0..N] /\ \A e \in Entries : base[e] < e
    /\ bad \in [Entries -> BOOLEAN] /\ Cardinality({e \in Entries : bad[e]}) <= 1
    /\ cursor = 0 /\ buf = 0 /\ lock = {} /\ faults = Faults
    /\ cache = [e \in Entries |-> None]
    /\ pc = [t \in Threads |-> "idle"]
    /\ obj = [t \in Threads |-> 0]
    /\ chain = [t \in Threads |-> <<>>]
    /\ cur = [t \in Threads |-> 0]
    /\ val = [t \in Threads |-> None]
    /\ res = [t \in Threads |-> None]
    /\ left = [t \in Threads |-> Reads]
    /\ hit = [t \in Threads |-> FALSE]

Go(t, l) == pc' = [pc EXCEPT ![t] = l]

Call(t) ==
    /\ pc[t] = "idle" /\ left[t] > 0
    /\ \E e \in Entries :
         /\ obj' = [obj EXCEPT ![t] = e]
         /\ cur' = [cur EXCEPT ![t] = e]
    /\ chain' = [chain EXCEPT ![t] = <<>>]
    /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ res' = [res EXCEPT ![t] = None]
    /\ hit' = [hit EXCEPT ![t] = FALSE]
    /\ Go(t, "lookup")
    /\ UNCHANGED <<static, cursor, buf, lock, cache, faults, val>>

\* The end of a read
Return(t, v) ==
    /\ res' = [res EXCEPT ![t] = v]
    /\ lock' = lock \ {t}
    /\ Go(t, "idle")

CanLock(t) == lock \subseteq {t}
Unlocked(t) == lock' = lock \ {t}
Locked(t) == lock' = lock \cup {t}

\* Look up the next entry of the chain; the lock is taken first and kept
Lookup(t) ==
    /\ pc[t] = "lookup" /\ CanLock(t)
    /\ IF cache[cur[t]] # None
       THEN val' = [val EXCEPT ![t] = cache[cur[t]]] /\ Unlocked(t) /\ Go(t, "apply")
       ELSE UNCHANGED val /\ Locked(t) /\ Go(t, "seek")
    /\ UNCHANGED <<static, cursor, buf, cache, faults, obj, chain, cur, res, left, hit>>

SeekTo(t, e, next) ==
    /\ cursor' = e
    /\ buf' = IF Forgets THEN 0 ELSE buf
    /\ Go(t, next)
    /\ IF Holds THEN UNCHANGED lock ELSE Unlocked(t)

Seek(t) ==
    /\ pc[t] = "seek"
    /\ SeekTo(t, cur[t], "header")
    /\ UNCHANGED <<static, cache, faults, obj, chain, cur, val, res, left, hit>>

\* What the file delivers: what is buffered, otherwise what is at the cursor
Here == IF buf # 0 THEN buf ELSE cursor

Fault(t) ==
    /\ pc[t] \in {"seek", "header", "data", "aseek", "adata"}
    /\ faults > 0 /\ faults' = faults - 1
    /\ hit' = [hit EXCEPT ![t] = TRUE]
    /\ Return(t, Error)
    /\ UNCHANGED <<static, cursor, buf, cache, obj, chain, cur, val, left>>

Header(t) ==
    /\ pc[t] = "header" /\ CanLock(t)
    /\ Locked(t)
    /\ buf' = Here
    /\ IF base[Here] = 0
       THEN Go(t, "data") /\ UNCHANGED <<chain, cur>>
       ELSE /\ chain' = [chain EXCEPT ![t] = Append(@, cur[t])]
            /\ cur' = [cur EXCEPT ![t] = base[Here]]
            /\ Go(t, "lookup")
    /\ UNCHANGED <<static, cursor, cache, faults, obj, val, res, left, hit>>

Store(t, e, d, v) ==
    cache' = [cache EXCEPT ![IF Key = "own" \/ base[e] = 0 THEN e ELSE base[e]] = IF Stores = "result" THEN v ELSE d]

\* The data of a whole object follows its header
Data(t) ==
    /\ pc[t] = "data"
    /\ LET d == Here IN
       /\ buf' = d
       /\ IF bad[d]
          THEN /\ Return(t, Error)
               /\ IF Checks THEN UNCHANGED cache ELSE Store(t, cur[t], <<d>>, <<d>>)
               /\ UNCHANGED val
          ELSE /\ Store(t, cur[t], <<d>>, <<d>>)
               /\ val' = [val EXCEPT ![t] = <<d>>]
               /\ Unlocked(t) /\ Go(t, "apply") /\ UNCHANGED res
    /\ UNCHANGED <<static, cursor, faults, obj, chain, cur, left, hit>>

\* Deltas are applied from the base on; the lock is taken for each
Apply(t) ==
    /\ pc[t] = "apply"
    /\ IF chain[t] = <<>>
       THEN Return(t, val[t])
       ELSE CanLock(t) /\ Locked(t) /\ Go(t, "aseek") /\ UNCHANGED res
    /\ UNCHANGED <<static, cursor, buf, cache, faults, obj, chain, cur, val, left, hit>>

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

ApplySeek(t) ==
    /\ pc[t] = "aseek"
    /\ SeekTo(t, Last(chain[t]), "adata")
    /\ UNCHANGED <<static, cache, faults, obj, chain, cur, val, res, left, hit>>

ApplyData(t) ==
    /\ pc[t] = "adata" /\ CanLock(t)
    /\ LET d == Here
           e == Last(chain[t])
           v == Append(val[t], d)
       IN
       /\ buf' = d
       /\ IF bad[d]
          THEN /\ Return(t, Error)
               /\ IF Checks THEN UNCHANGED cache ELSE Store(t, e, <<d>>, v)
               /\ UNCHANGED <<val, chain>>
          ELSE /\ Store(t, e, <<d>>, v)
               /\ val' = [val EXCEPT ![t] = v]
               /\ chain' = [chain EXCEPT ![t] = Front(@)]
               /\ Unlocked(t) /\ Go(t, "apply") /\ UNCHANGED res
    /\ UNCHANGED <<static, cursor, faults, obj, cur, left, hit>>

Step(t) == Lookup(t) \/ Seek(t) \/ Header(t) \/ Data(t) \/ Apply(t) \/ ApplySeek(t) \/ ApplyData(t) \/ Fault(t)
Next == \E t \in Threads : Call(t) \/ Step(t)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A t \in Threads : WF_vars(Step(t))

---------------------------------------------------------------------------
\* Every read returns the content of the entry; if it failed, only because of a fault
Exact == \A t \in Threads :
    (pc[t] = "idle" /\ res[t] # None) => (res[t] = Content(obj[t]) \/ (hit[t] /\ res[t] = Error))

\* What is cached is right
CacheRight == \A e \in Entries : cache[e] # None => cache[e] = Content(e)

\* Nobody waits for a lock which is never released
Mutex == Cardinality(lock) <= 1
NoDeadlock == (\E t \in Threads : pc[t] # "idle") => \E t \in Threads : ENABLED Step(t)
Returns == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
=============================================================================
