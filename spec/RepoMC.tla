-------------------------------- MODULE RepoMC --------------------------------
(* The laws of Repo over every small repository and history.                *)
EXTENDS Repo, TLC, SequencesExt, Json
CONSTANTS N,        \* names
          Builds, Bases, \* collections a package can name
          Groups, Pair,  \* companion groups; do commands get two arguments
          Shares         \* sets of files a package can share with others
NoShares == {{}}
ShareX == {{}, {"x"}}
VARIABLES w, db
vars == <<w, db>>
GroupOf(n) == IF \E g \in Groups, m \in N : n = m \o "." \o g THEN CHOOSE g \in Groups : \E m \in N : n = m \o "." \o g ELSE ""
Rec(n, b, ds, c, bd, sh) == [n |-> n, ver |-> "1", rel |-> 1, build |-> b, deps |-> { [n |-> d, b |-> bd[d]] : d \in ds }, coll |-> c,
   group |-> GroupOf(n), nls |-> "", sets |-> {}, alias |-> {}, share |-> sh, fn |-> n, id |-> n, hash |-> TRUE, sig |-> TRUE]
\* a dependency asks for the build that is offered with it, or the first one
BuildOf(ix, d) == IF d \in DOMAIN ix THEN ix[d].build ELSE CHOOSE b \in Builds : \A x \in Builds : b <= x
Recs(ix, n) == { Rec(n, b, ds, c, [ d \in N |-> BuildOf(ix, d) ], sh) : sh \in Shares, b \in Builds, ds \in SUBSET (N \ {n}), c \in Bases }
World(ix) == [colls |-> <<[name |-> "cli", url |-> FALSE, key |-> TRUE]>>, groups |-> Groups, idx |-> [cli |-> ix], ridx |-> [cli |-> <<>>],
              loc |-> [cli |-> [ n \in DOMAIN ix |-> n ]], rem |-> [cli |-> <<>>]]
Ix == w.idx.cli
Init == w = World(<<>>) /\ db = <<>>
Publish == \E n \in N :
  /\ \/ \E r \in Recs(Ix, n) : (n \in DOMAIN Ix => Ix[n].build <= r.build) /\ w' = World([ p \in DOMAIN Ix \cup {n} |-> IF p = n THEN r ELSE Ix[p] ])
     \/ n \in DOMAIN Ix /\ w' = World([ p \in DOMAIN Ix \ {n} |-> Ix[p] ])
  /\ db' = db
Args == { <<n>> : n \in N } \cup (IF Pair THEN { <<n, m>> : n, m \in N } ELSE {})
Law(name, P) == P \/ Assert(FALSE, name)

\* what the publisher promises: no dependency asks for more than is offered
Consistent == \A n \in DOMAIN Ix : \A d \in Ix[n].deps : d.n \in DOMAIN Ix => Ix[d.n].build >= d.b
\* and that every dependency is offered
Complete == \A n \in DOMAIN Ix : \A d \in Ix[n].deps : d.n \in DOMAIN Ix
Changed(t) == { p \in DOMAIN t : p \notin DOMAIN db \/ [t[p] EXCEPT !.share = {}] # [db[p] EXCEPT !.share = {}] }
MarksKept(t) == \A p \in DOMAIN db \cap DOMAIN t : t[p].auto = db[p].auto
MarksNew(t, asked) == \A p \in DOMAIN t \ DOMAIN db : (p \in asked => ~t[p].auto) /\ (p \notin asked /\ GroupOf(p) = "" => t[p].auto)
\* whatever came is complete, apart from what was up to date before
Closed(t, S) == \A p \in S : UpToDate(db, Offer(w, p)) \/ \A d \in t[p].deps : d.n = p \/ Have(t, d)

InstallLaws(a, t) == LET S == InstallPlan(w, db, a) asked == Range(a) IN
  /\ Law("C01 what is installed is complete", Consistent => Closed(t, asked \cup Changed(t)))
  /\ Law("C01 nothing comes that nobody needs", \A p \in Changed(t) : p \in asked \/ GroupOf(p) # "" \/ \E q \in S : \E d \in Needs(w, db, q) : d.n = p)
  /\ Law("C01 an order exists", Cardinality(S) > 3 \/ \E s \in SetToSeqs(S) : Ordered(w, db, S, s))
  /\ Law("C01 nothing leaves", DOMAIN db \subseteq DOMAIN t)
  /\ Law("C04 marks stay", MarksKept(t)) /\ Law("C04 new marks", MarksNew(t, asked))
\* the orders of installation; without shared files they all end alike (Plainly)
Orders(S) == { s \in SetToSeqs(S) : Ordered(w, db, S, s) }
\* as far as nothing is blocked
RECURSIVE Going(_, _, _)
Going(s, force, n) == IF n = Len(s) \/ (~force /\ Blocked(w, db, SubSeq(s, 1, n), s[n + 1])) THEN SubSeq(s, 1, n) ELSE Going(s, force, n + 1)
Taken(s) == UNION { Offer(w, s[i]).share : i \in DOMAIN s }
ShareLaws(s, t, force) ==
  /\ Law("C01 one owner at most", \A x \in UNION Shares : Cardinality(OwnersOf(t, x)) <= 1)
  /\ Law("C01 what was installed last owns it", s # <<>> => Offer(w, s[Len(s)]).share = t[s[Len(s)]].share)
  /\ Law("C01 only what is taken is lost", \A p \in (DOMAIN db \cap DOMAIN t) \ Range(s) : db[p].share \ t[p].share = db[p].share \cap Taken(s))
  /\ Law("C01 nothing is taken without force", ~force => \A p \in DOMAIN db \ Range(s) : t[p] = db[p])
Plainly == \E a \in Args : LET t == Install(w, db, a) IN
  db' = t /\ w' = w /\ IF InstallOk(w, db, a) THEN InstallLaws(a, t) ELSE Law("refused is inert", t = db)
InOrder == \E a \in Args, force \in BOOLEAN :
  IF ~InstallOk(w, db, a) THEN UNCHANGED vars /\ Law("refused is inert", Install(w, db, a) = db)
  ELSE \E s \in Orders(InstallPlan(w, db, a)) : LET l == Going(s, force, 0) t == InstallLog(w, db, a, l) IN
    /\ db' = t /\ w' = w /\ ShareLaws(l, t, force)
    /\ IF l = s THEN InstallLaws(a, t) /\ Law("C01 the plan", [ p \in DOMAIN t |-> Plain(t[p]) ] = [ p \in DOMAIN Install(w, db, a) |-> Plain(Install(w, db, a)[p]) ])
       ELSE /\ Law("C01 it ends where a package is blocked", StuckAt(w, db, InstallPlan(w, db, a), l, s[Len(l) + 1]))
            /\ Law("C04 marks stay", MarksKept(t)) /\ Law("C04 new marks", MarksNew(t, Range(a)))

DoInstall == IF Shares = {{}} THEN Plainly ELSE InOrder

RemoveLaws(a, t) == LET gone == DOMAIN db \ DOMAIN t IN
  /\ Law("C03 manual packages stay", \A p \in gone : ~db[p].auto => p \in Range(a) \/ GroupOf(p) # "")
  /\ Law("C03 no orphan is left", Groups = {} => DOMAIN t = Reach(t, Manual(t)))
  /\ Law("C03 nothing needed goes", Groups = {} => \A p \in DOMAIN t : \A d \in t[p].deps : d.n \in DOMAIN db => d.n \in DOMAIN t)
  /\ Law("C03 what was named goes", Range(a) \cap DOMAIN t = {})
  /\ Law("C04 marks stay", MarksKept(t)) /\ Law("C03 the rest is as it was", \A p \in DOMAIN t : t[p] = db[p])
DoRemove == \E a \in Args, f \in BOOLEAN : LET t == Remove(Groups, db, a, f) IN
  Range(a) \subseteq DOMAIN db /\ db' = t /\ w' = w /\ IF RemoveRefused(Groups, db, a, f) THEN Law("refused is inert", t = db) ELSE RemoveLaws(a, t)

UpgradeLaws(t) ==
  /\ Law("C05 nothing remains to do", Converged(w, t) /\ Obsolete(w, t) = {})
  /\ Law("C05 nothing at all remains to do", Groups = {} => NothingToDo(w, t))
  /\ Law("C05 unmaintained packages stay", Unmaintained(w, db) \subseteq DOMAIN t)
  /\ Law("C05 exactly the obsolete ones leave", DOMAIN db \ DOMAIN t = Obsolete(w, db))
  /\ Law("C05 what came is complete", Complete /\ Consistent => Closed(t, Changed(t)))
  /\ Law("C05 up to date packages stay as they are", \A p \in OK(w, db) : db[p].build >= Offer(w, p).build => t[p].build >= db[p].build)
  /\ Law("C04 marks stay", MarksKept(t)) /\ Law("C04 new marks", MarksNew(t, {}))
DoUpgrade == /\ db # <<>>
             /\ LET t == Upgrade(w, db, TRUE) IN
                IF UpgradeRefused(w, db, TRUE) \/ ~UpgradeOk(w, db) THEN UNCHANGED vars /\ Law("refused is inert", t = db)
                ELSE IF Shares = {{}} THEN db' = t /\ w' = w /\ UpgradeLaws(t)
                ELSE \E s \in Orders(UpPlan(w, db)) : LET u == Sharing(w, db, s, t) IN db' = u /\ w' = w /\ UpgradeLaws(u) /\ ShareLaws(s, u, TRUE)
Next == Publish \/ DoInstall \/ DoRemove \/ DoUpgrade
Spec == Init /\ [][Next]_vars
\* prints every state, for the drivers to run every command in
Emit == PrintT("S " \o ToJson([ix |-> Ix, db |-> db]))
=============================================================================
