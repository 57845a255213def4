------------------------------ MODULE RepoPubMC ------------------------------
(* A publisher adding, altering and dropping archives, changing keys and     *)
(* publishing, and a client copying the index: TLC explores every history.   *)
EXTENDS RepoPub
CONSTANTS FN, ID, KEY
\* metadata of the three contents: with everything, with almost nothing, and a companion
Meta(id) == CASE id = "1" -> <<L("N", "a"), L("V", "1"), L("r", "1"), L("s", "x"), L("s", "y"), L("A", "b"), L("R", "b0000000001"), L("c", "m"), L("D", "d")>>
              [] id = "2" -> <<L("N", "b"), L("V", "2"), L("r", "1")>>
              [] OTHER    -> <<L("N", "a.g"), L("V", "1"), L("r", "1"), L("g", "g"), L("s", "x")>>
Arc(id) == [id |-> id, size |-> 10, lines |-> Meta(id), files |-> <<"usr/" \o id>>]
VARIABLES arcs, priv, pkey, idx, snap, copy
vars == <<arcs, priv, pkey, idx, snap, copy>>
None == [arcs |-> [ f \in {} |-> Arc("1") ], key |-> ""]
Init == arcs = None.arcs /\ priv \in KEY /\ pkey = priv /\ idx = <<>> /\ snap = None /\ copy = <<>>
Store == \E f \in FN, i \in ID : arcs' = (f :> Arc(i)) @@ arcs /\ UNCHANGED <<priv, pkey, idx, snap, copy>>
Drop == \E f \in DOMAIN arcs : arcs' = [ g \in DOMAIN arcs \ {f} |-> arcs[g] ] /\ UNCHANGED <<priv, pkey, idx, snap, copy>>
Keys == \E k \in KEY : priv' = k /\ pkey' = k /\ UNCHANGED <<arcs, idx, snap, copy>>
Publish == \E t \in Published(arcs, priv) : idx' = t /\ snap' = [arcs |-> arcs, key |-> priv] /\ UNCHANGED <<arcs, priv, pkey, copy>>
Sync == copy' = idx /\ UNCHANGED <<arcs, priv, pkey, idx, snap>>
Next == Store \/ Drop \/ Keys \/ Publish \/ Sync
Spec == Init /\ [][Next]_vars

\* the index says what the archives were when it was published, one entry each, in whatever order
Faithful == Parse(idx) = Expected(snap.arcs, snap.key) /\ Cardinality(Parse(idx)) = Cardinality(DOMAIN snap.arcs)
\* verification reports exactly what is not as published
Reported == { e.fn : e \in { x \in Parse(idx) : WrongEntry(x, arcs, pkey) } }
Exact == Reported = { f \in DOMAIN snap.arcs : pkey # snap.key \/ f \notin DOMAIN arcs \/ arcs[f].id # snap.arcs[f].id }
\* nothing to report right after publishing
Fresh == (arcs = snap.arcs /\ pkey = snap.key) => Reported = {}
W(t) == [colls |-> <<"m">>, idx |-> ("m" :> t), fil |-> <<>>]
\* a client with the same text sees the same packages; companions are no members of their own
Client == copy = idx => Parse(W(copy).idx["m"]) = Expected(snap.arcs, snap.key)
Sets == \A s \in {"x", "y"} : SetMembers(W(idx), s) \cap { n \in Offers(W(idx)) : OfferOf(W(idx), n).one["g"] # "" } = {}
\* reading does not carry anything from one entry to the next
NoLeak == \A e \in Parse(idx) : NameOf(e) = "b" => e.one["c"] = "" /\ e.many["s"] = {} /\ e.one["D"] = ""
=============================================================================
