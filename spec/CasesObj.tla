------------------------------ MODULE CasesObj ------------------------------
(* Judges objects read by the real code: each line of CASES holds the bytes *)
(* of an object and what the library reported for it, stored loose (o1) and *)
(* in a pack (o2).                                                          *)
EXTENDS ObjFormat, CasesLib

Expected(c) == ParseBody(c.t, c.body)

\* Cases printed from a structure by the specification have to be well-formed

\* What git itself says (c.g) has to fit the specification, too.  git reports modes in a canonical
\* form, removes empty lines before the message of a tag, takes no time without a time zone,
\* the last of several authors, refuses tags of fewer than 64 bytes, and converts the text of commits
\* which name an encoding.
GitSig(g, s) == s.r = Ok => /\ TrimOf(g.name, s.name) /\ TrimOf(g.email, s.email)
                            /\ s.time.r = Ok /\ s.time.tz # <<>> => g.ts = s.time.ts[1]
CanonicalMode(m) == CASE m \div 4096 = 4 -> 16384
                      [] m \div 4096 = 10 -> 40960
                      [] m \div 4096 = 8 -> (IF (m \div 64) % 2 = 1 THEN 33261 ELSE 33188)
                      [] OTHER -> 57344
RECURSIVE Unled(_)
Unled(b) == IF b # <<>> /\ Head(b) = LF THEN Unled(Tail(b)) ELSE b
GitOk(g, x, body) ==
    IF g.r # "ok" THEN x.t = "tag" /\ Len(body) < 64
    ELSE CASE x.t = "commit" -> /\ g.tree = x.tree /\ g.parents = x.parents
                              /\ IF x.nenc # 0 THEN g.enc \in x.encs
                                 ELSE /\ x.nauthors = 1 => GitSig(g.author, x.author)
                                      /\ GitSig(g.committer, x.committer)
                                      /\ g.enc = <<>> /\ g.msg = x.msg
         [] x.t = "tag" -> /\ g.object = x.object /\ g.kind = x.kind /\ g.name = x.name
                           /\ IF x.tagger = <<>> THEN g.tname = <<>> /\ g.temail = <<>>
                              ELSE /\ TrimOf(g.tname, x.tagger[1].name)
                                   /\ g.temail = <<LT>> \o x.tagger[1].email \o <<GT>>
                           /\ g.msg = (IF x.msg = <<>> THEN <<>> ELSE Unled(x.msg[1]))
         [] x.t = "tree" -> g.entries = [i \in 1..Len(x.entries) |->
                                [mode |-> CanonicalMode(x.entries[i].mode), name |-> x.entries[i].name, id |-> x.entries[i].id]]
         [] x.t = "blob" -> g.data = x.data

Judge(c, x) == /\ OutcomeOk(c.o1, x)
               /\ OutcomeOk(c.o2, x)
               /\ x.r = Ok /\ "g" \in DOMAIN c => GitOk(c.g, x, c.body)
               /\ c.src = "printed" => x.r = Ok

Next == LET c == Cases[l]
            x == Expected(c)
        IN  NextCase(Judge(c, x), c.src \o "/" \o c.t \o "/" \o x.r \o (IF "g" \in DOMAIN c THEN "/git" ELSE ""))
Spec == Init /\ [][Next]_l
=============================================================================
