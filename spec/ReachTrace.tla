----------------------------- MODULE ReachTrace -----------------------------
(* Judges recorded histories: git works on a repository (commits are made,  *)
(* branches set, switched and deleted, objects packed and unpacked), while  *)
(* a handle resolves HEAD and branches, lists them, and reads everything    *)
(* they lead to. The commits of a history are                               *)
(*   [tree, par: numbers of the parents, items: numbers of all files]       *)
EXTENDS ReachLib, Naturals, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.CASES)

VARIABLES l, i,
          head, val,    \* as in Reach
          call, w, x    \* what was asked for, and what may be returned
tvars == <<l, i, head, val, call, w, x>>

Ev == Traces[l].ev[i]
G == Traces[l].commits
Range(s) == {s[k] : k \in 1..Len(s)}
None == [op |-> "none", b |-> 0]

TInit ==
    /\ l \in 1..Len(Traces) /\ i = 1
    /\ head = 0 /\ val = <<>> /\ call = None
    /\ w = [s |-> {}, c |-> {}] /\ x = [ever |-> {}, always |-> {}]

Same(c, r) == r.tree = G[c].tree /\ r.par = G[c].par

Allowed(r) ==
    CASE call.op = "peel" /\ r.r = "ok" -> r.c \in w.c \ {0} /\ Same(r.c, r)
      [] call.op = "peel" /\ r.r = "nf" -> 0 \in w.c
      [] call.op = "walk" -> r.r = "ok" /\ Same(call.b, r) /\ r.items = G[call.b].items
      [] call.op = "list" -> /\ r.r = "ok" /\ Len(r.l) = Cardinality(Range(r.l))
                             /\ x.always \subseteq Range(r.l) /\ Range(r.l) \subseteq x.ever
      [] OTHER -> FALSE

Step ==
    /\ i <= Len(Traces[l].ev)
    /\ i' = i + 1 /\ l' = l
    /\ CASE Ev.e = "init" ->
              head' = Ev.head /\ val' = Ev.val /\ UNCHANGED <<call, w, x>>
         [] Ev.e = "set" ->
              /\ val' = [val EXCEPT ![Ev.b] = Ev.c]
              /\ w' = Changed(w, Ev.b, Ev.c) /\ x' = ListChanged(x, Ev.b, Ev.c)
              /\ UNCHANGED <<head, call>>
         [] Ev.e = "head" ->
              /\ head' = Ev.b
              /\ w' = IF call.op = "peel" /\ call.b = 0 THEN Named(w, Ev.b, val) ELSE w
              /\ UNCHANGED <<val, call, x>>
         [] Ev.e = "call" ->
              /\ call = None /\ call' = [op |-> Ev.op, b |-> Ev.b]
              /\ w' = Begin({IF Ev.op = "peel" /\ Ev.b # 0 THEN Ev.b ELSE head}, val) /\ x' = BeginList(val)
              /\ UNCHANGED <<head, val>>
         [] Ev.e = "ret" ->
              Allowed(Ev) /\ call' = None /\ UNCHANGED <<head, val, w, x>>

Finish ==
    /\ i = Len(Traces[l].ev) + 1
    /\ i' = i + 1
    /\ UNCHANGED <<l, head, val, call, w, x>>
    /\ PrintT("OK " \o ToString(l) \o " " \o Traces[l].src)

TSpec == TInit /\ [][Step \/ Finish]_tvars
Done == TLCGet("diameter") >= 0 /\ PrintT("CHECKED " \o ToString(Len(Traces)))
=============================================================================
