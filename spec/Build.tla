--------------------------------- MODULE Build ---------------------------------
(* `cards create': building ports in a clean environment (the bot server).     *)
(* w: a world as in Repo, its collections all local; t: the port tree of Ports, *)
(* whose collections have the names of the binary ones; db: what is installed. *)
(* What building port p yields is out[p] = [rc, gone, recs]: the exit status    *)
(* of the packager and, if it succeeds, what replaces the names of gone in the  *)
(* index of the port's collection.                                             *)
EXTENDS Repo
P == INSTANCE Ports

Basic == {"chroot", "devel"}
Basics(db) == { p \in DOMAIN db : db[p].sets \cap Basic # {} }
Fixed == "cards.devel"

\* before anything else: the packages of the basic sets, and what they need
CoreRoots(w, db) == (UNION { SetMembers(w, s) : s \in Basic } \ DOMAIN db) \cup {Fixed}
CorePlan(w, db) == Plan(w, db, CoreRoots(w, db))
CoreOk(w, db) == CanDo(w, CorePlan(w, db))
Core(w, db) == Put(w, db, CorePlan(w, db) \ DOMAIN db, LAMBDA p : FALSE)

\* nothing but the basic packages
Bare(db) == Without(db, DOMAIN db \ Basics(db))

\* a package and its companions
Group(w, q) == IF q \notin Offered(w) THEN {} ELSE
  {q} \cup { c \in Offered(w) : \/ Offer(w, c).group # "" /\ c = q \o "." \o Offer(w, c).group
                                \/ Offer(w, c).nls # ""   /\ c = q \o "." \o Offer(w, c).nls }
Wanted(w, q) == { c \in Group(w, q) : Offer(w, c).group \in w.groups \/ (Offer(w, c).group = "" /\ Offer(w, c).nls = "") }
DepPorts(t, p) == P!Below(t, p) \ {p}
DepPkgs(w, t, p) == UNION { Wanted(w, q) : q \in DepPorts(t, p) }
DepsOk(w, t, p) == \A x \in DepPkgs(w, t, p) : Fetchable(w, x)
\* where p is built
Env(w, t, db, p) == Put(w, Bare(db), DepPkgs(w, t, p) \ Basics(db), LAMBDA x : FALSE)

\* what a successful build publishes
Published(w, c, o) == [w EXCEPT
  !.idx[c] = [ n \in (DOMAIN w.idx[c] \ o.gone) \cup DOMAIN o.recs |-> IF n \in DOMAIN o.recs THEN o.recs[n] ELSE w.idx[c][n] ],
  !.loc[c] = [ f \in DOMAIN w.loc[c] \cup { o.recs[n].fn : n \in DOMAIN o.recs } |->
                 IF \E n \in DOMAIN o.recs : o.recs[n].fn = f THEN o.recs[CHOOSE n \in DOMAIN o.recs : o.recs[n].fn = f].id ELSE w.loc[c][f] ]]
\* one port: [ok, w, db, env]
Built(w, t, db, p, o) ==
  LET e == Env(w, t, db, p) w2 == Published(w, t[p].coll, o) IN
  IF o.rc # 0 THEN [ok |-> FALSE, w |-> w, db |-> e, env |-> e]
  ELSE [ok |-> TRUE, w |-> w2, db |-> Put(w2, e, Group(w2, p), LAMBDA x : FALSE), env |-> e]

\* a whole collection: what has no binary of the port's version and release
InColl(t, x) == { p \in DOMAIN t : t[p].coll = x }
NeedsBuild(w, t, p) == \/ p \notin Offered(w) \/ Offer(w, p).fn \notin DOMAIN w.loc[From(w, p)]
                       \/ Offer(w, p).ver # t[p].ver \/ Offer(w, p).rel # t[p].rel
ToBuild(w, t, x) == { p \in InColl(t, x) : NeedsBuild(w, t, p) }
\* binaries nobody builds any more
Left(w, t, x) == CollMembers(w, x) \ DOMAIN t
Cleared(w, t, x) == [w EXCEPT !.loc = [ c \in DOMAIN w.loc |->
  [ f \in DOMAIN w.loc[c] \ { Offer(w, n).fn : n \in { n \in Left(w, t, x) : From(w, n) = c } } |-> w.loc[c][f] ] ]]
\* what can be built next: everything it needs has been
Ready(t, todo) == { p \in todo : P!Below(t, p) \cap todo \subseteq {p} }
================================================================================
