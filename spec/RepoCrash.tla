------------------------------ MODULE RepoCrash ------------------------------
(* The inside of one `cards' command: the separate changes it makes to the   *)
(* disk, between any two of which it may be interrupted, and what may be      *)
(* found afterwards.                                                          *)
(*                                                                            *)
(* disk d: [w, db, inst, txt]  the world, the database, the contents of the   *)
(*   packages' own files (or "torn"), and for every collection whether each   *)
(*   of its texts ("repo", "files", "key") is the local or the published one  *)
(* run r:  [k, todo, at]  the work, what is left to do in its phase, and the  *)
(*   package under way with how far it is                                     *)
EXTENDS Repo

-----------------------------------------------------------------------------
(* What a command has to do: synchronise, put packages in place as offered,   *)
(* remove `first', then `last', empty the depot.                              *)
Nothing(w) == [v |-> w, sync |-> FALSE, put |-> {}, roots |-> {}, free |-> {}, first |-> {}, last |-> {}, purge |-> FALSE]
Work(w, db, op) ==
  CASE op.k = "install" ->
         IF ~InstallOk(w, db, op.args) THEN Nothing(w)
         ELSE [Nothing(w) EXCEPT !.put = InstallPlan(w, db, op.args), !.roots = InstallRoots(w, db, op.args), !.free = Free(w, db, op.args)]
    [] op.k = "remove" ->
         IF RemoveRefused(w.groups, db, op.args, op.force) THEN Nothing(w)
         ELSE LET f == With(w.groups, db, AllTargets(db, op.args)) IN
              [Nothing(w) EXCEPT !.first = f, !.last = DOMAIN db \ (f \cup DOMAIN Remove(w.groups, db, op.args, op.force))]
    [] op.k = "upgrade" ->
         LET v == Synced(w) n == [Nothing(v) EXCEPT !.sync = TRUE] IN
         IF UpgradeRefused(v, db, op.proceed) \/ ~UpgradeOk(v, db) \/ NothingToDo(v, db) THEN n
         ELSE [n EXCEPT !.put = UpPlan(v, db), !.roots = UpRoots(v, db), !.free = UpRoots(v, db) \ DOMAIN db, !.last = Obsolete(v, db), !.purge = TRUE]
    [] op.k = "sync" -> [Nothing(Synced(w)) EXCEPT !.sync = TRUE]
    [] op.k = "purge" -> [Nothing(w) EXCEPT !.purge = TRUE]

New(k, db, p) == DbRec(Offer(k.v, p), IF p \in DOMAIN db THEN db[p].auto ELSE p \notin k.roots)
Texts == {"repo", "files", "key"}

-----------------------------------------------------------------------------
(* The steps *)
Todo(k, d, ph) ==
  CASE ph = "sync"  -> IF k.sync THEN { <<c, t>> : c \in Urls(d.w), t \in Texts } ELSE {}
    [] ph = "fetch" -> { p \in k.put : Coll(k.v, From(k.v, p)).url /\ (Offer(k.v, p).fn \in DOMAIN d.w.loc[From(k.v, p)] => d.w.loc[From(k.v, p)][Offer(k.v, p).fn] # Offer(k.v, p).id) }
    [] ph = "put"   -> k.put
    [] ph = "first" -> k.first
    [] ph = "last"  -> k.last
    [] ph = "purge" -> IF k.purge THEN { <<c, f>> : c \in Urls(d.w), f \in UNION { DOMAIN d.w.loc[x] : x \in CName(d.w) } } ELSE {}
    [] OTHER -> {}
After(ph) == CASE ph = "sync" -> "fetch" [] ph = "fetch" -> "put" [] ph = "put" -> "first" [] ph = "first" -> "last" [] ph = "last" -> "purge" [] ph = "purge" -> "done"
Enter(k, db0, d, ph) == [k |-> k, db0 |-> db0, ph |-> ph, todo |-> Todo(k, d, ph), at |-> ""]
Begin(d, op) == LET k == Work(d.w, d.db, op) IN Enter(k, d.db, d, "sync")

SetLoc(d, c, f, i) == [d EXCEPT !.w.loc[c] = [ x \in DOMAIN @ \cup {f} |-> IF x = f THEN i ELSE @[x] ]]
Drop(f, x) == [ y \in DOMAIN f \ {x} |-> f[y] ]
Set(f, x, v) == [ y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y] ]
\* may p be next among todo
Ready(r, p) == \A q \in In(r.k.v, r.db0, r.k.put, p) : q \in r.todo => OnCycleWith(r.k.v, r.db0, r.k.put, p, q)

\* the pairs <<disk, run>> possible next
Steps(d, r) ==
  IF r.ph = "done" THEN {}
  ELSE IF r.todo = {} THEN {<<d, Enter(r.k, r.db0, d, After(r.ph))>>}
  ELSE CASE r.ph = "sync" -> { LET e == [d EXCEPT !.txt[x[1]][x[2]] = "new"]
                                   f == IF x[2] = "repo" THEN [e EXCEPT !.w.idx[x[1]] = e.w.ridx[x[1]]] ELSE e IN
                               <<f, [r EXCEPT !.todo = @ \ {x}]>> : x \in r.todo }
         [] r.ph = "fetch" -> { <<SetLoc(d, From(r.k.v, p), Offer(r.k.v, p).fn, Offer(r.k.v, p).id), [r EXCEPT !.todo = @ \ {p}]>> : p \in r.todo }
         [] r.ph = "purge" -> { <<[d EXCEPT !.w.loc[x[1]] = Drop(@, x[2])], [r EXCEPT !.todo = @ \ {x}]>> : x \in r.todo }
         [] r.ph = "put" ->
              IF r.at = "" THEN { <<[d EXCEPT !.inst = Set(@, p, "torn")], [r EXCEPT !.at = p]>> : p \in { q \in r.todo : Ready(r, q) } }
              ELSE LET p == r.at n == New(r.k, d.db, p) IN
                IF d.inst[p] # n.id THEN {<<[d EXCEPT !.inst[p] = n.id], r>>}
                \* the list of files first where there is a record, the rest of the record at once
                ELSE IF p \in DOMAIN d.db /\ d.db[p].share # n.share THEN {<<[d EXCEPT !.db[p].share = n.share], r>>}
                ELSE {<<[d EXCEPT !.db = Set(@, p, n)], [r EXCEPT !.todo = @ \ {p}, !.at = ""]>>}
         [] r.ph \in {"first", "last"} ->
              IF r.at = "" THEN { <<[d EXCEPT !.inst = Set(@, p, "torn")], [r EXCEPT !.at = p]>> : p \in r.todo }
              ELSE LET p == r.at IN
                IF p \in DOMAIN d.inst THEN {<<[d EXCEPT !.inst = Drop(@, p)], r>>}
                ELSE {<<[d EXCEPT !.db = Drop(@, p)], [r EXCEPT !.todo = @ \ {p}, !.at = ""]>>}

-----------------------------------------------------------------------------
(* What may be found when a command stopped somewhere, however it goes about  *)
(* its work. k: its work, w, db: the world and the database it began with;    *)
(* c: [db, lab or txt as texts, loc, bad: packages whose files do not fit     *)
(* their record (or, without a record, that have files)]                      *)
OldAt(db, c, p) == IF p \in DOMAIN db THEN p \in DOMAIN c.db /\ c.db[p] = db[p] ELSE p \notin DOMAIN c.db
Offers(k, c, p) == p \in DOMAIN c.db /\ Unmarked(c.db[p]) = DbRec(Offer(k.v, p), FALSE)
\* an older record that already lists the new files: the package is still to be done
Half(k, db, c, p) == p \in DOMAIN db /\ p \in DOMAIN c.db /\ c.db[p] = [db[p] EXCEPT !.share = Offer(k.v, p).share]
Done(k, c) == (\A p \in k.put : Offers(k, c, p)) /\ (\A p \in k.first \cup k.last : p \notin DOMAIN c.db)
Touched(k) == k.put \cup k.first \cup k.last

Crashed == {"Others", "Record", "Mark", "Closed", "Early", "Texts", "TextsFirst", "Depot", "Misfit", "Transit"}
Between(x, w, db, k, c) ==
  CASE x = "Others" -> \A p \in (DOMAIN db \cup DOMAIN c.db) \ Touched(k) : OldAt(db, c, p)
    [] x = "Record" -> /\ \A p \in k.put : OldAt(db, c, p) \/ Half(k, db, c, p) \/ Offers(k, c, p)
                       /\ \A p \in k.first \cup k.last : OldAt(db, c, p) \/ p \notin DOMAIN c.db
    [] x = "Mark" -> \A p \in k.put \cap DOMAIN c.db : IF p \in DOMAIN db THEN c.db[p].auto = db[p].auto ELSE p \in k.free \/ c.db[p].auto = (p \notin k.roots)
    \* nothing new without what it needs
    [] x = "Closed" -> \A p \in k.put : Offers(k, c, p) /\ ~OldAt(db, c, p) =>
                         \A q \in In(k.v, db, k.put, p) : OnCycleWith(k.v, db, k.put, p, q) \/ Offers(k, c, q)
    \* what nobody needs any more goes at the end
    [] x = "Early" -> (\E p \in k.last : p \notin DOMAIN c.db) => (\A p \in k.put : Offers(k, c, p)) /\ \A p \in k.first : p \notin DOMAIN c.db
    [] x = "Texts" -> \A i \in CName(w), t \in Texts : c.txt[i][t] = "old" \/ (k.sync /\ i \in Urls(w) /\ c.txt[i][t] \in {"new", "both"}) \/ c.txt[i][t] = "both"
    [] x = "TextsFirst" -> k.sync /\ (\E p \in Touched(k) : ~OldAt(db, c, p)) => \A i \in Urls(w), t \in Texts : c.txt[i][t] \in {"new", "both"}
    [] x = "Depot" -> \A i \in DOMAIN w.loc :
         LET mine == { p \in k.put : From(k.v, p) = i } IN
         /\ \A f \in DOMAIN c.loc[i] : (f \in DOMAIN w.loc[i] /\ c.loc[i][f] = w.loc[i][f]) \/ \E p \in mine : Offer(k.v, p).fn = f /\ Offer(k.v, p).id = c.loc[i][f]
         /\ \A f \in DOMAIN w.loc[i] \ DOMAIN c.loc[i] : k.purge /\ i \in Urls(w) /\ Done(k, c)
    [] x = "Misfit" -> c.bad \subseteq Touched(k)
    \* one package at a time
    [] x = "Transit" -> Cardinality(c.bad) <= 1

\* the same again, for what it left undone; removing starts from what is left to name
Again(op, db) == IF op.k # "remove" THEN <<op>> ELSE
  LET a == { x \in Range(op.args) : Targets(db, x) # {} } IN IF a = {} THEN <<>> ELSE <<[op EXCEPT !.args = SelectSeq(@, LAMBDA x : x \in a)]>>
=============================================================================
