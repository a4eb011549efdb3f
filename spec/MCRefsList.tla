----------------------------- MODULE MCRefsList -----------------------------
EXTENDS RefsList
MCDirs == {<<"heads">>, <<"tags">>, <<"remotes">>}
MCNames == {<<"heads", "a">>, <<"heads", "a", "b">>, <<"heads", "a", "c", "d">>, <<"heads", "x.lock">>, <<"tags", "a">>, <<"tags", "e", "x.lock">>, <<"remotes", "o", "a">>, <<"HEAD">>}
=============================================================================
