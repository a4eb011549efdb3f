-------------------------------- MODULE Paths --------------------------------
(* A file system: nodes are sequences of component names, <<>> is the root. *)
(* fs is a function from the existing nodes to                              *)
(*   [k |-> "dir"], [k |-> "file"] or                                       *)
(*   [k |-> "link", abs, to]   to: a sequence of components                 *)
EXTENDS Sequences, Naturals

Parent(n) == IF n = <<>> THEN n ELSE SubSeq(n, 1, Len(n) - 1)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* Where the components lead from the directory `at`: a node which is no link, or an error
RECURSIVE Walk(_, _, _, _)
Walk(fs, at, comps, links) ==
    IF comps = <<>> THEN [r |-> "at", n |-> at]
    ELSE IF fs[at].k # "dir" THEN [r |-> "notdir"]
    ELSE LET c == Head(comps)
             rest == Tail(comps)
             n == Append(at, c)
         IN  CASE c \in {"", "."} -> Walk(fs, at, rest, links)
               [] c = ".." -> Walk(fs, Parent(at), rest, links)
               [] n \notin DOMAIN fs -> [r |-> "noent"]
               [] fs[n].k # "link" -> Walk(fs, n, rest, links)
               [] links >= 8 -> [r |-> "loop"]
               [] OTHER -> Walk(fs, IF fs[n].abs THEN <<>> ELSE at, fs[n].to \o rest, links + 1)

\* The same without links and without looking at the file system: what a name is about
RECURSIVE Normal(_, _)
Normal(at, comps) ==
    IF comps = <<>> THEN at
    ELSE LET c == Head(comps) IN
         Normal(CASE c \in {"", "."} -> at [] c = ".." -> Parent(at) [] OTHER -> Append(at, c), Tail(comps))
=============================================================================
