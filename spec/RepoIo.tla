-------------------------------- MODULE RepoIo --------------------------------
(* How archives are fetched and verified, and how an index is synchronised,  *)
(* step by step; transfers may fail or deliver something else at any step.   *)
(*                                                                           *)
(* Contents are 0 (nothing), 1 (what the publisher made) and 2 (something    *)
(* else). An entry announces a content (its checksum) and a content the      *)
(* publisher's or another key signed.                                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P,       \* packages of the plan
          C        \* collections with an address
None == 0
VARIABLES loc,     \* package -> content in the depot
          rem,     \* package -> content a transfer delivers; may change between transfers
          ent,     \* package -> [hash, signed, by]
          key,     \* whose public key is at hand
          pc,      \* "sync", "unpack", "fetch", "install", "done", "failed"
          cur,     \* package being fetched: [p, at, tries, sum] or <<>>
          ok,      \* verified packages
          inst,    \* package -> installed content
          idx, new, tmp \* collection -> local, published, downloaded index
vars == <<loc, rem, ent, key, pc, cur, ok, inst, idx, new, tmp>>
fetching == <<loc, rem, ent, key, cur, ok, inst>>
syncing == <<idx, new, tmp>>
Contents == 0..2
Init == /\ loc \in [P -> Contents] /\ rem \in [P -> Contents]
        /\ ent \in [P -> [hash : 1..2, signed : 1..2, by : {"pub", "other"}]]
        /\ key \in {"pub", "other", "none"}
        /\ \A p \in P : ent[p].by = "pub" => ent[p].signed = 1      \* the publisher signs only what it made
        /\ pc = "sync" /\ cur = <<>> /\ ok = {} /\ inst = [p \in P |-> None]
        /\ idx \in [C -> {"old"}] /\ new \in [C -> {"new"}] /\ tmp = [c \in C |-> "none"]
\* -------- synchronise: all transfers first, then unpack one after the other
Transfer(c) == pc = "sync" /\ tmp[c] = "none"
   /\ \E t \in {"new", "damaged"} : tmp' = [tmp EXCEPT ![c] = t]
   /\ UNCHANGED <<fetching, pc, idx, new>>
TransferFails == pc = "sync" /\ (\E c \in C : tmp[c] = "none") /\ pc' = "failed" /\ UNCHANGED <<fetching, syncing>>
AllThere == pc = "sync" /\ (\A c \in C : tmp[c] # "none") /\ pc' = "unpack" /\ UNCHANGED <<fetching, syncing>>
Unpack(c) == pc = "unpack" /\ idx[c] = "old"
   /\ (IF tmp[c] = "damaged" THEN pc' = "failed" /\ UNCHANGED idx ELSE pc' = pc /\ idx' = [idx EXCEPT ![c] = tmp[c]])
   /\ UNCHANGED <<fetching, new, tmp>>
Synced == pc = "unpack" /\ (\A c \in C : idx[c] = "new") /\ pc' = "fetch" /\ UNCHANGED <<fetching, syncing>>
\* -------- fetch and verify one package
Take(p) == pc = "fetch" /\ cur = <<>> /\ p \notin ok
   /\ cur' = [p |-> p, at |-> IF loc[p] = None THEN "get" ELSE "sum", tries |-> 0, sum |-> None]
   /\ UNCHANGED <<loc, rem, ent, key, pc, ok, inst, syncing>>
Get == cur # <<>> /\ cur.at = "get"
   /\ \E r \in Contents : r \in {rem[cur.p], 2, None} /\    \* the transfer can go wrong
      (IF r = None THEN pc' = "failed" /\ UNCHANGED <<loc, cur>>
      ELSE loc' = [loc EXCEPT ![cur.p] = r] /\ cur' = [cur EXCEPT !.at = "sum", !.tries = @ + 1] /\ UNCHANGED pc)
   /\ UNCHANGED <<rem, ent, key, ok, inst, syncing>>
Sum == cur # <<>> /\ cur.at = "sum" /\ cur' = [cur EXCEPT !.sum = loc[cur.p], !.at = "compare"]
   /\ UNCHANGED <<loc, rem, ent, key, pc, ok, inst, syncing>>
\* a wrong checksum leads to one more transfer, whose result is summed and compared again
Compare == cur # <<>> /\ cur.at = "compare"
   /\ (IF cur.sum = ent[cur.p].hash THEN cur' = [cur EXCEPT !.at = "verify"] /\ UNCHANGED pc
      ELSE IF cur.tries < 2 THEN cur' = [cur EXCEPT !.at = "get", !.tries = IF @ = 0 THEN 1 ELSE @] /\ UNCHANGED pc
      ELSE pc' = "failed" /\ UNCHANGED cur)
   /\ UNCHANGED <<loc, rem, ent, key, ok, inst, syncing>>
Verify == cur # <<>> /\ cur.at = "verify"
   /\ (IF ent[cur.p].by = key /\ ent[cur.p].signed = cur.sum THEN ok' = ok \cup {cur.p} /\ cur' = <<>> /\ UNCHANGED pc
      ELSE pc' = "failed" /\ UNCHANGED <<ok, cur>>)
   /\ UNCHANGED <<loc, rem, ent, key, inst, syncing>>
Fetched == pc = "fetch" /\ cur = <<>> /\ ok = P /\ pc' = "install" /\ UNCHANGED <<fetching, syncing>>
Install(p) == pc = "install" /\ inst[p] = None /\ inst' = [inst EXCEPT ![p] = loc[p]]
   /\ UNCHANGED <<loc, rem, ent, key, pc, cur, ok, syncing>>
Done == pc = "install" /\ (\A p \in P : inst[p] # None) /\ pc' = "done" /\ UNCHANGED <<fetching, syncing>>
Next == \/ \E c \in C : Transfer(c) \/ Unpack(c)
        \/ TransferFails \/ AllThere \/ Synced
        \/ \E p \in P : Take(p) \/ Install(p)
        \/ (pc = "fetch" /\ (Get \/ Sum \/ Compare \/ Verify)) \/ Fetched \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
\* C02: with the publisher's key, only what the publisher made and announced is installed
OnlyGenuine == key = "pub" => \A p \in P : inst[p] \in {None, 1}
OnlyAnnounced == \A p \in P : inst[p] # None => inst[p] = ent[p].hash /\ ent[p].by = key
AllOrNothing == (\E p \in P : inst[p] # None) => ok = P
FailedInert == pc = "failed" => \A p \in P : inst[p] = None
\* C09
NeverTorn == \A c \in C : idx[c] \in {"old", "new"}
SyncedMeansNew == pc \in {"fetch", "install", "done"} => \A c \in C : idx[c] = "new"
\* nothing in the way: the command succeeds
Ends == <>(pc \in {"done", "failed"})
Inv == OnlyGenuine /\ OnlyAnnounced /\ AllOrNothing /\ FailedInert /\ NeverTorn /\ SyncedMeansNew
=============================================================================
