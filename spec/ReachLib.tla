------------------------------ MODULE ReachLib ------------------------------
(* What a lookup may return: all values of the branches HEAD has named      *)
(* since it began, from the moment it named them. s: branches, c: commits.  *)
Begin(s, v) == [s |-> s, c |-> {v[b] : b \in s}]
Named(w, b, v) == [s |-> w.s \cup {b}, c |-> w.c \cup {v[b]}]
Changed(w, b, c) == IF b \in w.s THEN [w EXCEPT !.c = @ \cup {c}] ELSE w

(* What listing branches may return: those which were there at some moment,  *)
(* among them those which were there all the time.                          *)
BeginList(v) == [ever |-> {b \in DOMAIN v : v[b] # 0}, always |-> {b \in DOMAIN v : v[b] # 0}]
ListChanged(x, b, c) == IF c = 0 THEN [x EXCEPT !.always = @ \ {b}] ELSE [x EXCEPT !.ever = @ \cup {b}]
=============================================================================
