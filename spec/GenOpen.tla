------------------------------ MODULE GenOpen ------------------------------
(* What a path and its `.git` can be, and how the path can be spelled.      *)
EXTENDS Open, FiniteSets, Json, IOUtils, CSV, TLC

VARIABLE x

D == [k |-> "dir"]
F == [k |-> "file"]
L(abs, to) == [k |-> "link", abs |-> abs, to |-> to]
None == [k |-> "none"]

Ps == {None, F, D, L(FALSE, <<"q">>), L(TRUE, <<"q">>), L(FALSE, <<"nowhere">>), L(FALSE, <<"p">>), L(FALSE, <<"d", "..", "q">>)}
Gits == {None, F, D, L(FALSE, <<"..", "q", ".git">>), L(TRUE, <<"d">>), L(FALSE, <<"..", "nowhere">>), L(FALSE, <<".git">>),
         L(FALSE, <<"..", "d", "file">>), L(FALSE, <<"file", "x">>)}
QGits == {None, D, F}
Above == {None, D}

\* [abs, cwd, path, chdir]
Spellings ==
    {[abs |-> TRUE, cwd |-> <<"d">>, path |-> p] : p \in {<<"p">>, <<"p", "">>, <<"q", "..", "p">>, <<"p", ".git">>, <<"p", ".">>}}
    \cup {[abs |-> FALSE, cwd |-> <<>>, path |-> p] : p \in {<<"p">>, <<".", "p">>, <<"p", "">>, <<"d", "..", "p">>}}
    \cup {[abs |-> FALSE, cwd |-> <<"p">>, path |-> p] : p \in {<<>>, <<".">>, <<"..", "p">>}}
    \cup {[abs |-> FALSE, cwd |-> <<"q">>, path |-> p] : p \in {<<"..", "p">>, <<>>, <<".git">>}}

Tree(p, g, q, a) ==
    LET All == <<[p |-> <<>>, e |-> D], [p |-> <<"d">>, e |-> D], [p |-> <<"d", "file">>, e |-> F], [p |-> <<"q">>, e |-> D], [p |-> <<"p">>, e |-> p],
                 [p |-> <<"p", ".git">>, e |-> IF p.k = "dir" THEN g ELSE None],
                 [p |-> <<"q", ".git">>, e |-> q], [p |-> <<".git">>, e |-> a]>>
        Is(s) == s.e.k # "none"
    IN  SelectSeq(All, Is)

FS(s) == [n \in {s[i].p : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i].p = n].e]

\* The current directory has to be one
Proper(c) == Walk(FS(c.fs), <<>>, c.cwd, 0) = [r |-> "at", n |-> c.cwd] /\ FS(c.fs)[c.cwd].k = "dir"

Cases == {c \in {[fs |-> Tree(p, g, q, a), abs |-> s.abs, cwd |-> s.cwd, path |-> s.path] :
                   p \in Ps, g \in Gits, q \in QGits, a \in Above, s \in Spellings} : Proper(c)}

Spec == x \in Cases /\ [][FALSE /\ x' = x]_x

O == Outcome(FS(x.fs), x.cwd, x.abs, x.path)
\* Never the repository above, and never without a directory called .git
NotAbove == "serves" \in DOMAIN O => O.serves # <<".git">> /\ FS(x.fs)[O.serves].k = "dir"
NoClimb == O.r = {"ok"} \/ "ok" \notin O.r
Emit == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
=============================================================================
