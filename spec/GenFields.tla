------------------------------ MODULE GenFields ------------------------------
(* Which fields of which files of a repository contain what they should     *)
(* not: up to Together of them at the same time. What an abstract value means    *)
(* for a field (a number of fixed or variable width, digits, an id, a       *)
(* stream) is up to the harness. The pack contains a full object, an offset *)
(* delta of it, a reference delta of it and some full objects; everything   *)
(* else is there once.                                                      *)
EXTENDS Json, IOUtils, CSV, TLC, Naturals, FiniteSets, Sequences, SequencesExt

CONSTANT Together

VARIABLE x

Numbers == {"zero", "one", "less", "more", "half", "max", "high", "big"}
Digits == {"", "0", "less", "more", "-1", "+7", " 7", "99999999999999999999", "18446744073709551615", "9223372036854775807", "4294967296", "0x10", "1e3"}
Streams == {"empty", "cut", "garbage", "bomb", "dict", "tail", "checksum", "twice"}
Ids == {"self", "next", "gone", "zero", "ones"}
Files == {"empty", "cut", "tail", "garbage", "directory", "gone", "zeros", "ones"}
Lines == {"drop", "twice", "empty", "long", "nul", "highbytes", "nolf", "spaces", "minus", "swap"}
Texts == {"empty", "lf", "nul", "long", "spaces", "highbytes", "ref:", "dots", "slash", "self", "cr", "short", "other", "comment"}

Fields == [
    idx_magic |-> Numbers, idx_version |-> Numbers, idx_fan0 |-> Numbers, idx_fan128 |-> Numbers, idx_fan255 |-> Numbers,
    idx_id |-> Ids, idx_off |-> Numbers, idx_offlast |-> Numbers, idx_large |-> Numbers, idx_packid |-> Ids, idx_file |-> Files,
    pack_sig |-> Numbers, pack_version |-> Numbers, pack_count |-> Numbers, pack_id |-> Ids, pack_file |-> Files,
    base_type |-> Numbers, base_size |-> Numbers, base_z |-> Streams,
    ofs_type |-> Numbers, ofs_size |-> Numbers, ofs_z |-> Streams, ofs_dist |-> Numbers \cup {"overlong"}, ofs_from |-> Numbers, ofs_to |-> Numbers \cup {"overlong"}, ofs_copy |-> Numbers,
    ref_type |-> Numbers, ref_size |-> Numbers \cup {"overlong"}, ref_z |-> Streams, ref_base |-> Ids, ref_from |-> Numbers, ref_to |-> Numbers, ref_ins |-> Numbers,
    loose_kind |-> Lines, loose_len |-> Digits, loose_nul |-> {"none"}, loose_z |-> Streams, loose_file |-> Files,
    commit_tree |-> Lines, commit_parent |-> Lines, commit_author |-> Lines, commit_committer |-> Lines, commit_extra |-> Lines, commit_blank |-> Lines,
    tag_object |-> Lines, tag_type |-> Lines, tag_tag |-> Lines, tag_tagger |-> Lines,
    tree_mode |-> Digits, tree_name |-> Texts, tree_id |-> {"cut", "tail"},
    head |-> Texts, head_file |-> Files, branch |-> Texts, branch_file |-> Files, refs_file |-> Files, packs_file |-> Files, objects_file |-> Files
]

Names == SetToSeq(DOMAIN Fields)

\* One field, or two different ones
Spec == /\ \E i \in DOMAIN Names : \E v \in Fields[Names[i]] :
             \/ x = << <<Names[i], v>> >>
             \/ Together = 2 /\ \E j \in 1..(i - 1) : \E w \in Fields[Names[j]] : x = << <<Names[i], v>>, <<Names[j], w>> >>
        /\ [][FALSE /\ x' = x]_x

Emit == CSVWrite("%1$s", <<ToJson([k |-> "fields", set |-> x])>>, IOEnv.OUT)
=============================================================================
