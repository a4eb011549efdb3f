------------------------------ MODULE GenInside ------------------------------
(* Names of up to Max components, relative and absolute. The component      *)
(* ROOT stands for the path of a directory above the repository.            *)
EXTENDS Paths, Json, IOUtils, CSV, TLC, FiniteSets

CONSTANT Max

VARIABLE x

Parts == {"..", ".", "", "refs", "heads", "x", "HEAD", ".git", "other"}
Names == UNION {[1..n -> Parts] : n \in 1..Max}

\* Ways to the secrets which are longer
Long == {<<"refs", "heads", "..", "..", "..", "x">>, <<"refs", "heads", "..", "..", "..", "..", "HEAD">>, <<"refs", "..", "..", "other", ".git", "HEAD">>,
         <<"..", "..", "other", ".git", "refs", "heads", "x">>, <<"refs", "heads", "x", "..", "..", "..", "..", "x">>, <<".", "..", ".", "x">>,
         <<"refs", "heads", "..", "..", "..", ".git", "HEAD">>, <<"refs", "", "..", "", "..", "", "..", "x">>}
Absolute == {<<"ROOT", "x">>, <<"ROOT", "HEAD">>, <<"ROOT", "w", "x">>, <<"ROOT", "w", ".git", "HEAD">>, <<"ROOT", "w", ".git", "..", "x">>,
             <<"ROOT", "other", ".git", "refs", "heads", "x">>, <<"ROOT", "..", "x">>, <<"ROOT", "w", ".git", "refs", "heads", "x">>}

Cases == {[abs |-> FALSE, name |-> n] : n \in Names \cup Long}
    \cup {[abs |-> TRUE, name |-> n] : n \in Absolute \cup UNION {[1..k -> Parts] : k \in 1..2}}

Spec == x \in Cases /\ [][FALSE /\ x' = x]_x

Git == <<"w", ".git">>
\* Only names with `..` lead out
OnlyUp == ~x.abs => (IsPrefix(Git, Normal(Git, x.name)) \/ \E i \in DOMAIN x.name : x.name[i] = "..")
Emit == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
=============================================================================
