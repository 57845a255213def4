----------------------------- MODULE RepoDepotMC -----------------------------
(* Several collections: precedence, depots, synchronising and purging.       *)
EXTENDS Repo, TLC
CONSTANTS Names, Colls
VARIABLES w, db
vars == <<w, db>>
Law(name, P) == P \/ Assert(FALSE, name)
Perms == { s \in [1..Cardinality(Colls) -> Colls] : \A i, j \in DOMAIN s : i # j => s[i] # s[j] }
Rec(n, c, b) == [n |-> n, ver |-> "1", rel |-> 1, build |-> b, deps |-> {}, coll |-> c, group |-> "", nls |-> "", sets |-> {}, alias |-> {}, share |-> {},
                 fn |-> n, id |-> <<n, c, b>>, hash |-> TRUE, sig |-> TRUE]
Index(c) == UNION { [ S -> {1, 2} ] : S \in SUBSET Names }
Ix(c, f) == [ n \in DOMAIN f |-> Rec(n, c, f[n]) ]
\* the publisher carries what it lists; a local collection has its archives
World(order, url, key, old, new) ==
  [colls |-> [ i \in DOMAIN order |-> [name |-> order[i], url |-> url[order[i]], key |-> key[order[i]]] ], groups |-> {},
   idx |-> [ c \in Colls |-> Ix(c, old[c]) ], ridx |-> [ c \in Colls |-> IF url[c] THEN Ix(c, new[c]) ELSE <<>> ],
   loc |-> [ c \in Colls |-> IF url[c] THEN <<>> ELSE [ n \in DOMAIN old[c] |-> <<n, c, old[c][n]>> ] ],
   rem |-> [ c \in Colls |-> IF url[c] THEN [ n \in DOMAIN new[c] |-> <<n, c, new[c][n]>> ] ELSE <<>> ]]
Init == /\ \E o \in Perms, u \in [Colls -> BOOLEAN], k \in [Colls -> BOOLEAN], a, b \in [Colls -> Index("")] :
             /\ \A c \in Colls : ~u[c] => b[c] = <<>> /\ k[c]
             /\ w = TLCEval(World(o, u, k, a, b))
        /\ db = <<>>
\* what an installation leaves in the depot
Downloaded(S) == [w EXCEPT !.loc = [ c \in Colls |-> LET T == { n \in S : From(w, n) = c } IN
   [ f \in DOMAIN w.loc[c] \cup T |-> IF f \in T THEN Offer(w, f).id ELSE w.loc[c][f] ] ]]
DoInstall == \E n \in Names : LET t == Install(w, db, <<n>>) IN
  /\ InstallOk(w, db, <<n>>) /\ db' = t /\ w' = Downloaded({n})
  /\ Law("C10 the first collection that lists it", \E i \in DOMAIN w.colls :
       /\ n \in DOMAIN w.idx[w.colls[i].name] /\ t[n].id = w.idx[w.colls[i].name][n].id
       /\ \A j \in 1..(i - 1) : n \notin DOMAIN w.idx[w.colls[j].name])
  /\ Law("C02 from a verified archive", LET c == Coll(w, From(w, n)) IN c.url => c.key)
DoUpgrade == db # <<>> /\ LET v == Synced(w) t == Upgrade(v, db, TRUE) IN
  /\ ~UpgradeRefused(v, db, TRUE) /\ UpgradeOk(v, db)
  /\ db' = t /\ w' = IF NothingToDo(v, db) THEN v ELSE Purged(v)
  /\ Law("C05 converged", Converged(v, t))
  /\ Law("C10 upgraded from the first collection", \A p \in DOMAIN t : t[p] # db[p] =>
       \E i \in DOMAIN v.colls : /\ p \in DOMAIN v.idx[v.colls[i].name] /\ t[p].id = v.idx[v.colls[i].name][p].id
                                 /\ \A j \in 1..(i - 1) : p \notin DOMAIN v.idx[v.colls[j].name])
DoSync == w' = Synced(w) /\ db' = db
  /\ Law("C09 the published index", \A c \in Urls(w) : w'.idx[c] = w.ridx[c])
  /\ Law("C09 local collections stay", \A c \in Colls \ Urls(w) : w'.idx[c] = w.idx[c])
  /\ Law("C09 archives stay", w'.loc = w.loc) /\ Law("C09 twice is once", Synced(w') = w')
DoPurge == w' = Purged(w) /\ db' = db
  /\ Law("C07 downloads go", \A c \in Urls(w) : w'.loc[c] = <<>>)
  /\ Law("C07 local archives stay", \A c \in Colls \ Urls(w) : w'.loc[c] = w.loc[c])
  /\ Law("C07 nothing else", [w' EXCEPT !.loc = w.loc] = w)
  \* what could be installed before can be installed afterwards, as long as the publisher has it
  /\ Law("C07 nothing is lost", \A n \in Offered(w) : (Fetchable(w, n) /\ (Coll(w, From(w, n)).url => Offer(w, n).fn \in DOMAIN w.rem[From(w, n)] /\ w.rem[From(w, n)][Offer(w, n).fn] = Offer(w, n).id)) => Fetchable(w', n))
Next == DoInstall \/ DoUpgrade \/ DoSync \/ DoPurge
Spec == Init /\ [][Next]_vars
=============================================================================
