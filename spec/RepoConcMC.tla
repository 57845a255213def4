------------------------------ MODULE RepoConcMC ------------------------------
(* Two commands, every interleaving of their steps. *)
EXTENDS RepoConc, TLC
CONSTANTS N, Lock
VARIABLES pre, w0, d, ops, R
vars == <<pre, w0, d, ops, R>>
Law(name, b) == IF b THEN TRUE ELSE Assert(FALSE, name)
Rec(n, b, ds) == [n |-> n, ver |-> "1", rel |-> 1, build |-> b, deps |-> { [n |-> x, b |-> 1] : x \in ds }, coll |-> "cli", group |-> "", nls |-> "", sets |-> {}, alias |-> {},
   share |-> IF b = 1 THEN {} ELSE {n \o "x"}, fn |-> n, id |-> n \o ToString(b), hash |-> TRUE, sig |-> TRUE]
Low(n) == CASE n = "a" -> {} [] n = "b" -> {"a"} [] OTHER -> {"a", "b"}
Offs == UNION { { [ n \in S |-> f[n] ] : f \in [S -> UNION { { Rec(n, 2, ds) : ds \in SUBSET Low(n) } : n \in S }] } : S \in SUBSET N }
Indices == { f \in Offs : \A n \in DOMAIN f : f[n].n = n /\ \A x \in f[n].deps : x.n \in DOMAIN f }
Insts == UNION { [S -> UNION { { DbRec(Rec(n, b, ds), a) : b \in {1, 2}, ds \in SUBSET Low(n), a \in BOOLEAN } : n \in N }] : S \in SUBSET N }
Dbs == { f \in Insts : \A n \in DOMAIN f : \E b \in {1, 2} : f[n].id = n \o ToString(b) /\ f[n].deps \subseteq { [n |-> x, b |-> 1] : x \in Low(n) } /\ \A x \in f[n].deps : x.n \in DOMAIN f }
World(ix) == [colls |-> <<[name |-> "cli", url |-> FALSE, key |-> TRUE]>>, groups |-> {}, idx |-> [cli |-> ix], ridx |-> [cli |-> <<>>],
   loc |-> [cli |-> [ n \in DOMAIN ix |-> ix[n].id ]], rem |-> [cli |-> <<>>]]
Ops(ix, db) == { [k |-> "install", args |-> <<n>>] : n \in DOMAIN ix } \cup { [k |-> "remove", args |-> <<n>>, force |-> FALSE] : n \in DOMAIN db \cup DOMAIN ix }
  \cup (IF db # <<>> THEN {[k |-> "upgrade", proceed |-> TRUE]} ELSE {})
Idle == [st |-> "idle"]
Init == \E ix \in Indices, db \in Dbs :
  /\ pre = db /\ w0 = World(ix)
  /\ d = [w |-> World(ix), db |-> db, inst |-> [ n \in DOMAIN db |-> db[n].id ], txt |-> [cli |-> [ t \in Texts |-> "old" ]]]
  /\ ops \in [{1, 2} -> Ops(ix, db)] /\ R = [i \in {1, 2} |-> Idle]
Start(i) == R[i].st = "idle" /\ R' = [R EXCEPT ![i] = IF Lock /\ R[3 - i].st = "run" /\ Holds(R[3 - i]) THEN [st |-> "failed"] ELSE Starting(d, ops[i])] /\ UNCHANGED <<pre, w0, d, ops>>
Go(i) == R[i].st = "run" /\ \E s \in Moves(d, R[i], IF Lock /\ R[3 - i].st = "run" THEN {R[3 - i]} ELSE {}) : d' = s[1] /\ R' = [R EXCEPT ![i] = s[2]] /\ UNCHANGED <<pre, w0, ops>>
Next == \E i \in {1, 2} : Start(i) \/ Go(i)
Spec == Init /\ [][Next]_vars
Torn == { p \in DOMAIN d.inst \cup DOMAIN d.db : ~(p \in DOMAIN d.inst /\ p \in DOMAIN d.db /\ d.inst[p] = d.db[p].id /\ d.db[p].share = IF d.db[p].build = 1 THEN {} ELSE {p \o "x"}) }
Ks == { R[i].k : i \in { j \in {1, 2} : "k" \in DOMAIN R[j] } }
Laws == /\ Law("C14 one package at a time", Cardinality(Torn) <= 1)
        /\ Law("C14 under the lock", Torn # {} => \E i \in {1, 2} : R[i].st = "run" /\ Holds(R[i]) /\ Torn = {R[i].at})
        /\ Law("C14 old or wanted", \A p \in N \ Torn : Origin(pre, Ks, d.db, p))
Ends == (\A i \in {1, 2} : R[i].st \in {"done", "failed"}) =>
        /\ Law("C14 whole at the end", Torn = {})
        /\ Law("C14 both took place", Apart(Ks) /\ (\A i \in {1, 2} : R[i].st = "done") => \A k \in Ks : Achieved(k, d.db))
=============================================================================
