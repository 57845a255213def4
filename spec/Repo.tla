--------------------------------- MODULE Repo ---------------------------------
(* Packages, repositories and the `cards' commands on them, at the level of  *)
(* whole packages (PkgDb describes what happens to files).                   *)
(*                                                                           *)
(* world w:                                                                  *)
(*   colls   sequence of [name, url, key]: configured collections in order;  *)
(*           url: has a download address; key: the local public key is the   *)
(*           publisher's                                                     *)
(*   groups  the configured companion groups                                 *)
(*   idx     collection -> name -> record: the local index                   *)
(*   ridx    collection -> name -> record: the published index               *)
(*   loc     collection -> file name -> content: archives in the depot       *)
(*   rem     collection -> file name -> content: archives published          *)
(* record: [n, ver, rel, build, deps (set of [n, b]), coll, group, nls, sets, *)
(*   alias, fn (archive file name), id (content the index was made from),    *)
(*   share (its files other packages may have as well; each package has      *)
(*   files of its own besides), hash, sig (is the entry the archive's)]      *)
(* database: name -> [ver, rel, build, deps, coll, group, sets, alias, id,   *)
(*   auto, share (those of these files it owns)]                             *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == { s[i] : i \in DOMAIN s }
CName(w) == { w.colls[i].name : i \in DOMAIN w.colls }
Coll(w, c) == w.colls[CHOOSE i \in DOMAIN w.colls : w.colls[i].name = c]

-----------------------------------------------------------------------------
(* What is offered: the collection listed first wins *)
Lists(w, i, n) == w.colls[i].name \in DOMAIN w.idx /\ n \in DOMAIN w.idx[w.colls[i].name]
Offered(w) == UNION { DOMAIN w.idx[c] : c \in CName(w) \cap DOMAIN w.idx }
From(w, n) == w.colls[CHOOSE i \in DOMAIN w.colls : Lists(w, i, n) /\ \A j \in 1..(i - 1) : ~Lists(w, j, n)].name
Offer(w, n) == w.idx[From(w, n)][n]

\* the archive of n can be had, unaltered
Fetchable(w, n) ==
  LET c == From(w, n) r == Offer(w, n)
      local == r.fn \in DOMAIN w.loc[c] /\ w.loc[c][r.fn] = r.id
      remote == r.fn \in DOMAIN w.rem[c] /\ w.rem[c][r.fn] = r.id IN
  IF Coll(w, c).url THEN (local \/ remote) /\ r.hash /\ r.sig /\ Coll(w, c).key
  ELSE local

-----------------------------------------------------------------------------
(* The database *)
DbRec(r, auto) == [ver |-> r.ver, rel |-> r.rel, build |-> r.build, deps |-> r.deps, coll |-> r.coll,
                   group |-> r.group, sets |-> r.sets, alias |-> r.alias, id |-> r.id, auto |-> auto, share |-> r.share]
Unmarked(x) == [x EXCEPT !.auto = FALSE]
\* apart from the mark and the files others may take
Plain(x) == [x EXCEPT !.auto = FALSE, !.share = {}]
Owners(db, x) == { p \in DOMAIN db : x \in db[p].alias }
Known(db, x) == x \in DOMAIN db \/ Owners(db, x) # {}
Real(db, x) == IF x \in DOMAIN db THEN {x} ELSE Owners(db, x)
\* the installed build is what is asked for, or newer
Have(db, d) == d.n \in DOMAIN db /\ db[d.n].build >= d.b
UpToDate(db, r) == r.n \in DOMAIN db /\ db[r.n].ver = r.ver /\ db[r.n].rel = r.rel /\ db[r.n].build >= r.build
                   /\ (db[r.n].coll = "" \/ r.coll = "" \/ db[r.n].coll = r.coll)

-----------------------------------------------------------------------------
(* The closure of what has to be installed *)
Needs(w, db, p) == IF UpToDate(db, Offer(w, p)) THEN {} ELSE { d \in Offer(w, p).deps : d.n # p /\ ~Have(db, d) }
RECURSIVE Close(_, _, _)
Close(w, db, S) ==
  LET T == S \cup { d.n : d \in UNION { Needs(w, db, p) : p \in S \cap Offered(w) } } IN
  IF T = S THEN S ELSE Close(w, db, T)
Companions(w, S) == { c \in Offered(w) : \E p \in S, g \in w.groups : c = p \o "." \o g }
Plan(w, db, roots) == LET S == Close(w, db, roots) IN Close(w, db, S \cup Companions(w, S))
CanDo(w, S) == \A p \in S : p \in Offered(w) /\ Fetchable(w, p)

\* what p needs in this plan, and everything below it
In(w, db, S, p) == { d.n : d \in Needs(w, db, p) } \cap S
RECURSIVE Below(_, _, _, _)
Below(w, db, S, T) == LET U == T \cup UNION { In(w, db, S, p) : p \in T } IN IF U = T THEN T ELSE Below(w, db, S, U)
OnCycleWith(w, db, S, p, d) == p \in Below(w, db, S, {d})
\* an order in which nothing comes before what it needs, as far as there is one
Ordered(w, db, S, log) == \A i, j \in DOMAIN log :
  (log[i] \in S /\ log[j] \in In(w, db, S, log[i]) /\ ~OnCycleWith(w, db, S, log[i], log[j])) => j < i

\* db with the packages of S as offered; fresh(p) is the mark of what was not there
Put(w, db, S, Fresh(_)) == [ p \in DOMAIN db \cup S |->
  IF p \in S THEN DbRec(Offer(w, p), IF p \in DOMAIN db THEN db[p].auto ELSE Fresh(p)) ELSE db[p] ]

-----------------------------------------------------------------------------
(* Files several packages have: the one installed last owns them. log is the *)
(* order in which packages are installed as offered, starting from db        *)
Later(w, log, i, x) == \E j \in DOMAIN log : j > i /\ x \in Offer(w, log[j]).share
LastAt(log, p) == CHOOSE i \in DOMAIN log : log[i] = p /\ \A j \in DOMAIN log : log[j] = p => j <= i
Owns(w, db, log, p) ==
  IF p \in Range(log) THEN { x \in Offer(w, p).share : ~Later(w, log, LastAt(log, p), x) }
  ELSE { x \in db[p].share : ~Later(w, log, 0, x) }
\* without force, a package does not take a file that another one owns
Blocked(w, db, log, p) == \E q \in (DOMAIN db \cup Range(log)) \ {p} : Owns(w, db, log, q) \cap Offer(w, p).share # {}
Unblocked(w, db, log) == \A i \in DOMAIN log : ~Blocked(w, db, SubSeq(log, 1, i - 1), log[i])
Sharing(w, db, log, t) == [ p \in DOMAIN t |-> [t[p] EXCEPT !.share = Owns(w, db, log, p)] ]
OwnersOf(t, x) == { p \in DOMAIN t : x \in t[p].share }

-----------------------------------------------------------------------------
(* cards install NAMES *)
SetMembers(w, x) == { n \in Offered(w) : x \in Offer(w, n).sets /\ Offer(w, n).group = "" }
CollMembers(w, x) == { n \in Offered(w) : Offer(w, n).coll = x /\ Offer(w, n).group = "" /\ Offer(w, n).nls = "" }
Members(w, x) == IF SetMembers(w, x) # {} THEN SetMembers(w, x) ELSE CollMembers(w, x)
Sensible(w, x) == x \in Offered(w) \/ Members(w, x) # {}
Roots(w, db, x) == IF Members(w, x) # {} THEN { n \in Members(w, x) : ~Known(db, n) } ELSE {x}
InstallRoots(w, db, args) == UNION { Roots(w, db, x) : x \in Range(args) }
InstallPlan(w, db, args) == Plan(w, db, InstallRoots(w, db, args))
InstallOk(w, db, args) == (\A x \in Range(args) : Sensible(w, x)) /\ CanDo(w, InstallPlan(w, db, args))
\* the mark of companions that come along is nobody's request: either one
Free(w, db, args) == Companions(w, InstallPlan(w, db, args)) \ (InstallRoots(w, db, args) \cup DOMAIN db)
\* what installing the packages of log, in this order, leaves; all of the plan unless one is blocked
InstallLog(w, db, args, log) == Sharing(w, db, log, Put(w, db, Range(log), LAMBDA p : p \notin InstallRoots(w, db, args)))
Install(w, db, args) == IF ~InstallOk(w, db, args) THEN db ELSE
  Put(w, db, InstallPlan(w, db, args), LAMBDA p : p \notin InstallRoots(w, db, args))
\* without force, log is where an installation ends for good: p cannot follow
StuckAt(w, db, S, log, p) == p \in S \ Range(log) /\ Ordered(w, db, S, Append(log, p)) /\ Blocked(w, db, log, p)
  /\ \A d \in In(w, db, S, p) : d \in Range(log) \/ OnCycleWith(w, db, S, p, d)

-----------------------------------------------------------------------------
(* cards remove *)
InUse(db, p) == \E q \in DOMAIN db \ {p} : \E d \in db[q].deps : d.n = p
CollOrGroup(db, x) == { p \in DOMAIN db : db[p].coll = x \/ db[p].group = x }
InSet(db, x) == { p \in DOMAIN db : x \in db[p].sets }
Targets(db, x) == (IF CollOrGroup(db, x) # {} THEN CollOrGroup(db, x) ELSE InSet(db, x)) \cup Real(db, x)
With(groups, db, S) == S \cup { c \in DOMAIN db : \E p \in S, g \in groups \ {"lib"} : c = p \o "." \o g }
AllTargets(db, args) == UNION { Targets(db, x) : x \in Range(args) }
RemoveRefused(groups, db, args, force) ==
  \/ "base" \in Range(args)
  \/ \E x \in Range(args) : \E p \in Real(db, x) : InUse(db, p)
  \/ ~force /\ \E p \in With(groups, db, AllTargets(db, args)) : db[p].coll = "base"
RECURSIVE Reach(_, _)
Reach(db, S) == LET T == S \cup { p \in DOMAIN db : \E q \in S : \E d \in db[q].deps : d.n = p } IN IF T = S THEN S ELSE Reach(db, T)
Manual(db) == { p \in DOMAIN db : ~db[p].auto }
Without(db, S) == [ p \in DOMAIN db \ S |-> db[p] ]
Sweep(groups, db) == Without(db, With(groups, db, DOMAIN db \ Reach(db, Manual(db))))
Remove(groups, db, args, force) == IF RemoveRefused(groups, db, args, force) THEN db ELSE
  Sweep(groups, Without(db, With(groups, db, AllTargets(db, args))))

-----------------------------------------------------------------------------
(* cards diff, cards upgrade *)
OK(w, db) == { p \in DOMAIN db : p \in Offered(w) /\ db[p].build >= Offer(w, p).build }
Newer(w, db) == { p \in DOMAIN db : p \in Offered(w) /\ db[p].build < Offer(w, p).build }
Rebuilt(w, db) == { p \in Newer(w, db) : db[p].ver = Offer(w, p).ver /\ db[p].rel = Offer(w, p).rel }
OutOfDate(w, db) == Newer(w, db) \ Rebuilt(w, db)
Obsolete(w, db) == { p \in DOMAIN db : p \notin Offered(w) /\ db[p].auto }
Unmaintained(w, db) == { p \in DOMAIN db : p \notin Offered(w) /\ ~db[p].auto }
Size(w, db) == Cardinality(Newer(w, db)) + Cardinality(Obsolete(w, db)) + Cardinality(Unmaintained(w, db))
Large(w, db) == db # <<>> /\ 100 - ((100 * Cardinality(OK(w, db))) \div Cardinality(DOMAIN db)) > 20

UpRoots(w, db) == Newer(w, db) \cup
  { c \in Companions(w, { p \in DOMAIN db : db[p].group = "" }) : ~Have(db, [n |-> c, b |-> Offer(w, c).build]) }
UpPlan(w, db) == Close(w, db, UpRoots(w, db))
NothingToDo(w, db) == UpRoots(w, db) = {} /\ Obsolete(w, db) = {}
UpgradeRefused(w, db, proceed) == (Large(w, db) /\ ~proceed) \/ (db # <<>> /\ DOMAIN db \cap Offered(w) = {})
UpgradeOk(w, db) == CanDo(w, UpPlan(w, db))
Upgrade(w, db, proceed) == IF UpgradeRefused(w, db, proceed) \/ ~UpgradeOk(w, db) THEN db ELSE
  Without(Put(w, db, UpPlan(w, db), LAMBDA p : p \notin UpRoots(w, db)), Obsolete(w, db))
\* nothing the upgrade itself wants remains
Converged(w, db) == Newer(w, db) = {} /\ Obsolete(w, db) = {}

-----------------------------------------------------------------------------
(* cards sync: every collection with an address *)
Urls(w) == { c \in CName(w) : Coll(w, c).url }
Synced(w) == [w EXCEPT !.idx = [ c \in DOMAIN w.idx |-> IF c \in Urls(w) THEN w.ridx[c] ELSE w.idx[c] ],
                       !.colls = [ i \in DOMAIN w.colls |-> IF w.colls[i].url THEN [w.colls[i] EXCEPT !.key = TRUE] ELSE w.colls[i] ]]
(* cards purge *)
Purged(w) == [w EXCEPT !.loc = [ c \in DOMAIN w.loc |-> IF c \in Urls(w) THEN <<>> ELSE w.loc[c] ]]
=============================================================================
