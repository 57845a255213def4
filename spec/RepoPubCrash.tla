----------------------------- MODULE RepoPubCrash -----------------------------
(* The inside of `cards repo': the texts it publishes for each collection are *)
(* replaced one by one; it may be interrupted between any two replacements,   *)
(* and clients may fetch any text at any moment.                              *)
(*                                                                            *)
(* A version of a text is a number, 0 when it is not there; torn texts are -1. *)
EXTENDS Integers, Sequences, FiniteSets
Texts == {"REPO", "FILES", "REPO.zst", "FILES.zst"}
\* what publishing the collections S brings
Published(txt, S, n) == [ c \in DOMAIN txt |-> IF c \in S THEN [ t \in Texts |-> n ] ELSE txt[c] ]
\* one more text is in place
Steps(txt, S, n) == { [txt EXCEPT ![c][t] = n] : c \in { x \in S : \E t \in Texts : txt[x][t] # n }, t \in Texts } \ {txt}

PubLaws == {"Whole", "Others", "Archives"}
\* what may be found when publishing S, which was to bring `want', stopped somewhere
PubBetween(x, S, old, want, seen, arcs) ==
  CASE x = "Whole" -> \A c \in DOMAIN seen \cap S, t \in Texts : seen[c][t] \in {old[c][t], want[c][t]}
    [] x = "Others" -> \A c \in DOMAIN old \ S : seen[c] = old[c]
    [] x = "Archives" -> arcs
=============================================================================
