------------------------------ MODULE Effects ------------------------------
(* What operations change: reading, nothing at all; writing, nothing but    *)
(* the object written, whether it succeeds or fails.                        *)
(* tree: path -> what is there ("dir ...", "object <id>", other content)    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

ObjDir(repo, id) == repo \o "/.git/objects/" \o SubSeq(id, 1, 2)
ObjFile(repo, id) == ObjDir(repo, id) \o "/" \o SubSeq(id, 3, 40)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

VARIABLE tree

\* No operation takes anything away or changes it; `fresh` are the paths with a new content
Keeps(new) == \A p \in DOMAIN tree : p \in DOMAIN new /\ new[p] = tree[p]

Read(new, touched) == new = tree /\ touched = {}

\* stuck: taking away what the write itself had made failed
Write(repo, id, new, touched, stuck) ==
    /\ Keeps(new)
    /\ \A p \in DOMAIN new \ DOMAIN tree :
         \/ p \in {ObjDir(repo, id), repo \o "/.git/objects"} /\ StartsWith(new[p], "dir")
         \/ p = ObjFile(repo, id) /\ new[p] = "object " \o id
         \/ stuck /\ StartsWith(p, repo \o "/.git/objects/")
    \* that it was stored again may be noted
    /\ \A p \in touched : p = ObjFile(repo, id) \/ (p \in DOMAIN tree /\ tree[p] = "object " \o id) \/ StartsWith(p, repo \o "/.git/objects/pack/")
=============================================================================
