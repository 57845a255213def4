------------------------------ MODULE RepoConfMC ------------------------------
(* Every way of writing down a few settings means the same.                  *)
EXTENDS RepoConf
CONSTANT MAX
Settings == {<<"dir", "/d/m">>, <<"dir", "/d/n | u">>, <<"collection", "m">>, <<"depot", "/p">>, <<"url", "v">>, <<"url", "w">>, <<"group", "g">>, <<"logdir", "/l">>, <<"keypath", "/k">>}
Indents == {"", " ", "\t"}
Seps == {" ", "\t", " \t "}
Ends == {"", "\t", "#c", " # dir /x"}
Between == {<<>>, <<"", "# group h">>, <<" \t">>}
Write(s, i, p, e) == i \o s[1] \o p \o s[2] \o e
VARIABLES text, want, n
Init == text = <<>> /\ want = None /\ n = 0
Next == n < MAX /\ n' = n + 1 /\ \E s \in Settings, i \in Indents, p \in Seps, e \in Ends, b \in Between :
  text' = text \o b \o <<Write(s, i, p, e)>> /\ want' = Put(want, [key |-> s[1], val |-> s[2]])
Spec == Init /\ [][Next]_<<text, want, n>>
Same == Fold(None, text) = want
\* nothing is lost: one directory per line, addresses for all when there is one for all
Urls == want.url # "" => \A i \in DOMAIN Spread(want).dirs : Spread(want).dirs[i].url # ""
Own == \A i \in DOMAIN want.dirs : want.dirs[i].url # "" => Spread(want).dirs[i].url = want.dirs[i].url
=============================================================================
