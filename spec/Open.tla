-------------------------------- MODULE Open --------------------------------
(* Opening a repository is decided by what `.git` below the path is.        *)
EXTENDS Paths

Found(fs, cwd, abs, path) == Walk(fs, IF abs THEN <<>> ELSE cwd, Append(path, ".git"), 0)

\* What opening has to come to: the results allowed, and the directory served
Outcome(fs, cwd, abs, path) ==
    LET w == Found(fs, cwd, abs, path) IN
    CASE w.r = "at" -> IF fs[w.n].k = "dir" THEN [r |-> {"ok"}, serves |-> w.n] ELSE [r |-> {"nf"}]
      [] w.r = "noent" -> [r |-> {"nf"}]
      [] OTHER -> [r |-> {"nf", "io"}]
=============================================================================
