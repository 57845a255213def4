----------------------------- MODULE RepoCrashMC -----------------------------
(* Every command from every small state, interrupted anywhere, and repeated.  *)
EXTENDS RepoCrash, TLC
CONSTANTS N, Kinds, Crashes, Groups
VARIABLES d0, op, k0, d, r, left
vars == <<d0, op, k0, d, r, left>>
Law(name, b) == IF b THEN TRUE ELSE Assert(FALSE, name)
GroupOf(n) == IF \E g \in Groups, m \in N : n = m \o "." \o g THEN CHOOSE g \in Groups : \E m \in N : n = m \o "." \o g ELSE ""
Rec(n, b, ds, sh) == [n |-> n, ver |-> "1", rel |-> 1, build |-> b, deps |-> { [n |-> x, b |-> 1] : x \in ds }, coll |-> "cli",
   group |-> GroupOf(n), nls |-> "", sets |-> {}, alias |-> {}, share |-> sh, fn |-> n, id |-> n \o ToString(b), hash |-> TRUE, sig |-> TRUE]
\* the second build has another file
Recs(n) == { Rec(n, b, ds, IF b = 1 THEN {} ELSE {n \o "x"}) : b \in {1, 2}, ds \in SUBSET (N \ {n}) }
Indexes == UNION { { [ n \in S |-> f[n] ] : f \in [S -> UNION { Recs(n) : n \in S }] } : S \in SUBSET N }
Indices == { f \in Indexes : \A n \in DOMAIN f : f[n].n = n }
Dbs == { f \in UNION { [S -> UNION { { DbRec(x, a) : x \in Recs(n), a \in BOOLEAN } : n \in N }] : S \in SUBSET N } :
         \A n \in DOMAIN f : \E x \in Recs(n) : f[n].id = x.id /\ f[n].deps = x.deps }
World(ix, rx, url) == [colls |-> <<[name |-> "cli", url |-> url, key |-> TRUE]>>, groups |-> Groups, idx |-> [cli |-> ix], ridx |-> [cli |-> rx],
   loc |-> [cli |-> IF url THEN <<>> ELSE [ n \in DOMAIN ix |-> ix[n].id ]], rem |-> [cli |-> IF url THEN [ n \in DOMAIN rx |-> rx[n].id ] ELSE <<>>]]
Ops(db) == (IF "install" \in Kinds THEN { [k |-> "install", args |-> <<n>>] : n \in N } \cup { [k |-> "install", args |-> <<"cli">>] } ELSE {})
  \cup (IF "upgrade" \in Kinds /\ db # <<>> THEN { [k |-> "upgrade", proceed |-> TRUE] } ELSE {})
  \cup (IF "remove" \in Kinds THEN { [k |-> "remove", args |-> <<n>>, force |-> FALSE] : n \in DOMAIN db } ELSE {})
Init == \E ix \in Indices, db \in Dbs, url \in (IF "upgrade" \in Kinds THEN {TRUE} ELSE {FALSE}) :
  \* what the publisher offers is complete
  /\ \A n \in DOMAIN ix : \A x \in ix[n].deps : x.n \in DOMAIN ix
  /\ op \in Ops(db)
  /\ d0 = [w |-> World(IF url THEN <<>> ELSE ix, IF url THEN ix ELSE <<>>, url), db |-> db, inst |-> [ n \in DOMAIN db |-> db[n].id ], txt |-> [cli |-> [ t \in Texts |-> "old" ]]]
  /\ k0 = Work(d0.w, d0.db, op) /\ d = d0 /\ r = Begin(d0, op) /\ left = Crashes
Seen(x) == [db |-> x.db, txt |-> x.txt, loc |-> x.w.loc,
  bad |-> { p \in DOMAIN x.inst \cup DOMAIN x.db : ~(p \in DOMAIN x.inst /\ p \in DOMAIN x.db /\ x.inst[p] = x.db[p].id /\ \E y \in Recs(p) : y.id = x.inst[p] /\ y.share = x.db[p].share) }]
Step == \E s \in Steps(d, r) : d' = s[1] /\ r' = s[2] /\ UNCHANGED <<d0, op, k0, left>>
Crash == left > 0 /\ r.ph # "done" /\ Again(op, d.db) # <<>> /\ left' = left - 1 /\ r' = Begin(d, Again(op, d.db)[1]) /\ UNCHANGED <<d0, op, k0, d>>
Next == Step \/ Crash
Spec == Init /\ [][Next]_vars
\* the next attempt may begin with another package than the one that was under way
Laws == Groups = {} => LET c == Seen(d) IN \A x \in (IF left = Crashes THEN Crashed ELSE Crashed \ {"Transit"}) : Law("C12 " \o x, Between(x, d0.w, d0.db, k0, c))
Want == CASE op.k = "install" -> Install(d0.w, d0.db, op.args) [] op.k = "remove" -> Remove(Groups, d0.db, op.args, op.force)
          [] op.k = "upgrade" -> Upgrade(Synced(d0.w), d0.db, TRUE)
Ends == r.ph = "done" =>
  /\ Law("C12 the same end", IF Groups = {} THEN [ p \in DOMAIN d.db |-> Unmarked(d.db[p]) ] = [ p \in DOMAIN Want |-> Unmarked(Want[p]) ]
        ELSE op.k = "remove" \/ DOMAIN Want \subseteq DOMAIN d.db)
  /\ Law("C12 the same marks", \A p \in DOMAIN d.db \cap DOMAIN Want : p \in k0.free \/ d.db[p].auto = Want[p].auto)
  /\ Law("C12 every file fits", Seen(d).bad = {})
  /\ Law("C12 nothing remains", op.k = "upgrade" /\ Groups = {} /\ DOMAIN d0.db \cap DOMAIN d0.w.ridx.cli # {} => NothingToDo(d.w, d.db))
=============================================================================
