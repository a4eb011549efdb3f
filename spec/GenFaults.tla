------------------------------ MODULE GenFaults ------------------------------
(* Which calls of an operation fail, and how.                               *)
EXTENDS Json, IOUtils, CSV, TLC, Naturals

CONSTANT Max

VARIABLE x

\* "one": call number at; "two": that and the next; "from": that and all following;
\* "path": all calls on the at-th file or folder; "folder": all calls in its folder;
\* the others: all calls of a kind, from number at of them on
Modes == {"one", "two", "from", "opens", "reads", "stats", "packs", "loose", "path", "folder", "every other"}
Errnos == {"EIO", "EACCES", "EMFILE", "ENFILE", "ENOMEM", "ELOOP", "ESTALE", "EAGAIN", "EPERM", "ETIMEDOUT"}

Spec == x \in [mode : Modes, at : 0..Max, errno : Errnos] /\ [][FALSE /\ x' = x]_x

\* None of the failures says that a file does not exist
Real == x.errno \notin {"ENOENT", "ENOTDIR"}
Emit == (x.mode = "every other" => x.at < 2) => CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
=============================================================================
