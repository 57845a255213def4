---------------------------- MODULE RepoPubCrashMC ----------------------------
(* Every publication of some collections, interrupted anywhere and repeated,  *)
(* while a client fetches what it finds.                                      *)
EXTENDS RepoPubCrash, TLC
CONSTANTS Colls, Rounds
VARIABLES old, txt, asked, n, run, got
vars == <<old, txt, asked, n, run, got>>
Law(name, b) == IF b THEN TRUE ELSE Assert(FALSE, name)
None == [ c \in Colls |-> [ t \in Texts |-> 0 ] ]
Init == old = None /\ txt = None /\ asked = {} /\ n = 0 /\ run = FALSE /\ got = None
\* a new publication; what was interrupted before is not repeated unless asked for
Start == ~run /\ n < Rounds /\ \E S \in SUBSET Colls \ {{}} : asked' = S /\ old' = txt /\ n' = n + 1 /\ run' = TRUE /\ UNCHANGED <<txt, got>>
Step == run /\ txt' \in Steps(txt, asked, n) /\ UNCHANGED <<old, asked, n, run, got>>
End == run /\ txt = Published(old, asked, n) /\ run' = FALSE /\ UNCHANGED <<old, txt, asked, n, got>>
\* interrupted: what there is now is what there was for the next one
Crash == run /\ run' = FALSE /\ UNCHANGED <<old, txt, asked, n, got>>
Fetch == \E c \in Colls, t \in Texts : got' = [got EXCEPT ![c][t] = txt[c][t]] /\ UNCHANGED <<old, txt, asked, n, run>>
Next == Start \/ Step \/ End \/ Crash \/ Fetch
Spec == Init /\ [][Next]_vars
Laws == \A x \in PubLaws : Law("C12 publishing " \o x, PubBetween(x, asked, old, Published(old, asked, n), txt, TRUE))
\* a client never has a text nobody published completely
Client == \A c \in Colls, t \in Texts : Law("C12 publishing client", got[c][t] \in 0..n)
=============================================================================
