------------------------------ MODULE RepoTrace ------------------------------
(* Judges recorded cards commands against Repo. A case is                     *)
(*   [w, pre, op, rc, post, log, loc, lab, plab, inst, out]                   *)
(* w: the world before; pre, post: databases; log: the packages whose         *)
(* post-install script ran, in order; loc: depot afterwards; plab, lab: names *)
(* of the index, file list and key texts before and afterwards, w.rlab of the *)
(* published ones; inst: contents of the installed packages' files afterwards *)
EXTENDS Repo, Json, TLC, TLCExt, IOUtils, SequencesExt
Cases == JsonDeserialize(IOEnv.CASES)
Rec(r) == [r EXCEPT !.deps = Range(r.deps), !.sets = Range(r.sets), !.alias = Range(r.alias), !.share = Range(r.share)]
Index(ix) == [ c \in DOMAIN ix |-> [ n \in DOMAIN ix[c] |-> Rec(ix[c][n]) ] ]
World(w) == TLCEval([w EXCEPT !.groups = Range(w.groups), !.idx = Index(w.idx), !.ridx = Index(w.ridx)])
Db(d) == TLCEval([ n \in DOMAIN d |-> Rec(d[n]) ])
If(b, n) == IF b THEN {} ELSE {n}

\* every installed package has its own file with its own content, and every other file is its owner's
FilesFit(c, db) == /\ DOMAIN c.inst = DOMAIN db /\ \A p \in DOMAIN db : c.inst[p] = db[p].id
                   /\ DOMAIN c.sh = UNION { db[p].share : p \in DOMAIN db } /\ \A x \in DOMAIN c.sh : \A p \in OwnersOf(db, x) : c.sh[x] = db[p].id
\* the depot: what was installed came from an unaltered archive; nothing else changes
Depot(c, w, S) == \A k \in DOMAIN w.loc :
  /\ \A f \in DOMAIN w.loc[k] : f \in DOMAIN c.loc[k] /\ (c.loc[k][f] = w.loc[k][f] \/ \E p \in S : From(w, p) = k /\ Offer(w, p).fn = f)
  /\ \A f \in DOMAIN c.loc[k] : f \in DOMAIN w.loc[k] \/ \E p \in S : From(w, p) = k /\ Offer(w, p).fn = f
Genuine(c, w, S) == \A p \in S : Offer(w, p).fn \in DOMAIN c.loc[From(w, p)] /\ c.loc[From(w, p)][Offer(w, p).fn] = Offer(w, p).id
Inert(c, db) == Db(c.post) = db /\ c.log = <<>> /\ FilesFit(c, db)
\* the collections whose archive of p is what was installed
Elsewhere(c, w, p) == \E k \in CName(w) \ {From(w, p)} : k \in DOMAIN w.idx /\ p \in DOMAIN w.idx[k] /\ w.idx[k][p].id = c.post[p].id

Put0(w, db, S) == Put(w, db, S, LAMBDA p : FALSE)
\* what a command that installs S, of which Req was asked for and Fr may carry either mark, must have done
Installed(c, w, db, S, Req, Fr, Gone) ==
  LET post == Db(c.post) want == Without(Put0(w, db, S), Gone) IN
  If(S \subseteq DOMAIN post, "Missing") \cup
  If(DOMAIN post \subseteq DOMAIN want /\ Range(c.log) \subseteq S /\ \A p \in DOMAIN post \ S : p \in DOMAIN db => Plain(post[p]) = Plain(db[p]), "Extra") \cup
  If(DOMAIN want \ S \subseteq DOMAIN post, "Lost") \cup
  If(S \subseteq Range(c.log) /\ Len(c.log) = Cardinality(Range(c.log)), "Once") \cup
  If(\A p \in S \cap DOMAIN post : Plain(post[p]) = Plain(want[p]) \/ Elsewhere(c, w, p), "Wrong") \cup
  If(Range(c.log) \subseteq Offered(w) => \A p \in DOMAIN post \cap DOMAIN want : (p \in Offered(w) /\ Elsewhere(c, w, p)) \/ post[p].share = Owns(w, db, c.log, p), "Owner") \cup
  If(\A p \in S \cap DOMAIN post : ~Elsewhere(c, w, p), "Source") \cup
  If(FilesFit(c, post), "Files") \cup
  If(Ordered(w, db, S, c.log), "Order") \cup
  If(\A p \in DOMAIN post \cap DOMAIN db : post[p].auto = db[p].auto, "MarkOld") \cup
  If(\A p \in DOMAIN post \ (DOMAIN db \cup Fr) : p \in Req => ~post[p].auto, "MarkAsked") \cup
  If(\A p \in DOMAIN post \ (DOMAIN db \cup Fr) : p \in S \ Req => post[p].auto, "MarkPulled")

\* names that stand for more than themselves
Collective(w, args) == \E x \in Range(args) : Members(w, x) # {}
Sel(b, s) == IF b THEN s ELSE {}
InstallBad(c, w, db) ==
  LET a == c.op.args S == TLCEval(InstallPlan(w, db, a)) IN
  IF ~(\A x \in Range(a) : Sensible(w, x)) THEN If(c.rc # 0, "AcceptedUnknown") \cup If(Inert(c, db), "UnknownNotInert")
  ELSE IF ~(S \subseteq Offered(w)) THEN If(c.rc # 0, "AcceptedNoDep") \cup If(Inert(c, db), "NoDepNotInert")
  ELSE IF ~CanDo(w, S) THEN If(c.rc # 0, "AcceptedUnverified") \cup If(Inert(c, db), "UnverifiedNotInert")
  ELSE IF c.rc # 0 /\ (c.op.force \/ ~\E p \in S : StuckAt(w, db, S, c.log, p)) THEN {"Failed"}
  ELSE IF c.rc # 0 THEN Installed(c, w, db, Range(c.log) \cap S, InstallRoots(w, db, a), Free(w, db, a), {}) \cup If(Unblocked(w, db, c.log), "TakesOver") \cup If(Depot(c, w, S), "Depot")
  ELSE If(c.op.force \/ ~(Range(c.log) \subseteq Offered(w)) \/ Unblocked(w, db, c.log), "TakesOver") \cup
       LET b == Installed(c, w, db, S, InstallRoots(w, db, a), Free(w, db, a), {})
           b2 == b \cup If(Depot(c, w, S), "Depot") \cup If(Genuine(c, w, S), "Genuine") IN
       b2 \cup Sel((Collective(w, a) \/ Companions(w, S) # {}) /\ b \cap {"Missing", "Extra", "Lost"} # {}, {"Names"})

RemoveBad(c, w, db) ==
  LET a == c.op.args post == Db(c.post) want == TLCEval(Remove(w.groups, db, a, c.op.force)) IN
  IF \E x \in Range(a) : x # "base" /\ Targets(db, x) = {} THEN {}       \* unspecified
  ELSE IF RemoveRefused(w.groups, db, a, c.op.force) THEN If(c.rc # 0, "RemoveAccepted") \cup If(Inert(c, db), "RefusedNotInert")
  ELSE If(c.rc = 0, "RemoveFailed") \cup
       If(DOMAIN post \cap AllTargets(db, a) = {}, "NamedStays") \cup
       If(DOMAIN post \subseteq DOMAIN want \/ DOMAIN post \cap AllTargets(db, a) # {}, "OrphanStays") \cup
       If(DOMAIN want \subseteq DOMAIN post, "NeededGone") \cup
       If(\A p \in DOMAIN post \cap DOMAIN want : Unmarked(post[p]) = Unmarked(want[p]), "OthersChanged") \cup
       If(FilesFit(c, post), "Files") \cup
       If(\A p \in DOMAIN post \cap DOMAIN db : post[p].auto = db[p].auto, "MarkOld")

Counts(w, db) == [ok |-> Cardinality(OK(w, db)), newer |-> Cardinality(OutOfDate(w, db)), rebuilt |-> Cardinality(Rebuilt(w, db)),
                  obsolete |-> Cardinality(Obsolete(w, db)), unmaintained |-> Cardinality(Unmaintained(w, db)), all |-> Cardinality(DOMAIN db)]
\* diff prints nothing but a sentence when there is nothing to tell
DiffBad(c, w, db) == If(c.rc = 0, "DiffFailed") \cup If(Inert(c, db), "DiffChanges") \cup
  If(IF Size(w, db) = 0 THEN c.out.uptodate ELSE
     /\ ~c.out.uptodate /\ c.out.counts = Counts(w, db) /\ c.out.consent = Large(w, db)
     /\ Range(c.out.newer) = { p \o "|" \o db[p].ver \o "-" \o ToString(db[p].rel) \o "|" \o Offer(w, p).ver \o "-" \o ToString(Offer(w, p).rel) : p \in OutOfDate(w, db) }
     /\ Range(c.out.rebuilt) = Rebuilt(w, db) /\ Range(c.out.obsolete) = Obsolete(w, db) /\ Range(c.out.unmaintained) = Unmaintained(w, db), "Counts")
AskBad(c, w, db) == If(c.rc = 0, "DiffFailed") \cup If(Inert(c, db), "DiffChanges") \cup
  If(c.out.answer = (IF c.op.ask = "-c" THEN (IF Size(w, db) > 0 THEN "yes" ELSE "no") ELSE ToString(Size(w, db))), "Answer")

\* a system upgrade first synchronises: w is the world afterwards
UpgradeBad(c, w, db) ==
  IF Large(w, db) /\ ~c.op.proceed THEN If(Inert(c, db), "NoConsent") \cup If(c.rc = 0, "UpgradeFailed")
  ELSE IF db # <<>> /\ DOMAIN db \cap Offered(w) = {} THEN If(Inert(c, db), "NothingOffered") \cup If(c.rc # 0, "NothingOffered")
  ELSE IF ~(UpPlan(w, db) \subseteq Offered(w)) THEN If(c.rc # 0, "AcceptedNoDep") \cup If(Inert(c, db), "NoDepNotInert")
  ELSE IF ~UpgradeOk(w, db) THEN If(c.rc # 0, "AcceptedUnverified") \cup If(Inert(c, db), "UnverifiedNotInert")
  ELSE IF c.rc # 0 THEN {"UpgradeFailed"}
  ELSE LET S == UpPlan(w, db) b == Installed(c, w, db, S, UpRoots(w, db), UpRoots(w, db) \ DOMAIN db, Obsolete(w, db)) IN
    b \cup Sel(b \cap {"Missing", "Extra", "Lost", "Wrong", "Once"} # {}, {"NotConverged"})
      \cup If(NothingToDo(w, db) \/ c.loc = Purged(w).loc, "NotPurged")

SyncFull(c, w) == \A k \in Urls(w) : w.rlab[k].ok
SyncBad(c, w, db) == If(Inert(c, db), "SyncChanges") \cup
  If(\A k \in CName(w) \ Urls(w) : c.lab[k] = c.plab[k], "SyncLocal") \cup
  If(c.loc = w.loc, "SyncDepot") \cup
  IF SyncFull(c, w) THEN If(c.rc = 0, "SyncFailed") \cup
      If(\A k \in Urls(w) : c.lab[k].repo = w.rlab[k].repo /\ c.lab[k].files = w.rlab[k].files /\ c.lab[k].key = w.rlab[k].key, "SyncNotEqual")
  ELSE If(c.rc # 0, "SyncAccepted") \cup
      If(\A k \in Urls(w) : c.lab[k].repo \in {c.plab[k].repo, w.rlab[k].repo} /\ c.lab[k].files \in {c.plab[k].files, w.rlab[k].files}
            /\ (w.rlab[k].ok \/ c.lab[k].repo # "" \/ c.plab[k].repo = ""), "SyncTorn")
PurgeBad(c, w, db) == If(c.rc = 0, "PurgeFailed") \cup If(Inert(c, db), "PurgeChanges") \cup
  If(\A k \in Urls(w) : c.loc[k] = <<>>, "PurgeLeft") \cup If(\A k \in CName(w) \ Urls(w) : c.loc[k] = w.loc[k], "PurgeLocal") \cup
  If(c.lab = c.plab, "PurgeIndex") \cup If(c.other, "PurgeOther")

Same(c, w) == c.lab = c.plab /\ c.other
Bad(c) ==
  LET w == World(c.w) db == Db(c.pre) k == c.op.k IN
  IF c.rc = 997 THEN {"Hangs"} ELSE IF c.rc > 128 \/ c.rc < 0 THEN {"Crashes"} ELSE
  CASE k = "install" -> InstallBad(c, w, db) \cup If(Same(c, w), "Meddles")
    [] k = "remove" -> RemoveBad(c, w, db) \cup If(Same(c, w) /\ c.loc = w.loc, "Meddles")
    [] k = "sync" -> SyncBad(c, w, db)
    [] k = "purge" -> PurgeBad(c, w, db)
    [] k \in {"diff", "ask", "upgrade"} ->
         LET v == TLCEval(Synced(w)) IN
         IF ~SyncFull(c, w) THEN SyncBad([c EXCEPT !.rc = 1], w, db)
         ELSE CASE k = "diff" -> DiffBad(c, v, db) [] k = "ask" -> AskBad(c, v, db) [] k = "upgrade" -> UpgradeBad(c, v, db)
VARIABLE i
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1 /\ PrintT("C " \o ToJson([k |-> i', bad |-> SetToSeq(Bad(Cases[i']))]))
Spec == Init /\ [][Next]_i
=============================================================================
