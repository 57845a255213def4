-------------------------------- MODULE BuildMC --------------------------------
(* The laws of Build over every history of a small build service: ports come,  *)
(* change and go, somebody installs packages by hand, builds fail.             *)
EXTENDS Build, TLC
CONSTANTS Ports, Vers, Junk, Most,  \* Most: how many packages besides
          Others                    \* collections besides the first
VARIABLES w, t, db
vars == <<w, t, db>>
Law(name, b) == IF b THEN TRUE ELSE Assert(FALSE, name)

Rec(n, v, c, sets, group) == [n |-> n, ver |-> v, rel |-> 1, build |-> 1, deps |-> {}, coll |-> c, group |-> group, nls |-> "", sets |-> sets, alias |-> {},
   share |-> {}, fn |-> n, id |-> n \o v, hash |-> TRUE, sig |-> TRUE]
Colls == {"x"} \cup Others
Home(pt) == IF Others = {} \/ pt # "b" THEN "x" ELSE CHOOSE c \in Others : TRUE
Lower == [a |-> {}, b |-> {"a"}, c |-> {"a", "b"}]
World(ix) == [colls |-> IF Others = {} THEN <<[name |-> "x", url |-> FALSE, key |-> TRUE]>> ELSE <<[name |-> "x", url |-> FALSE, key |-> TRUE], [name |-> "y", url |-> FALSE, key |-> TRUE]>>,
   groups |-> {"devel"}, idx |-> ix, ridx |-> ix, loc |-> [ c \in DOMAIN ix |-> [ n \in DOMAIN ix[c] |-> ix[c][n].id ] ], rem |-> <<>>]
Start == "bash" :> Rec("bash", "1", "", {"chroot"}, "") @@ "cards.devel" :> Rec("cards.devel", "1", "", {}, "devel")
Init == /\ w = World("x" :> Start @@ [ c \in Others |-> <<>> ]) /\ db = <<>>
        /\ t \in [ Ports -> [coll : {"z"}, ver : {"0"}, rel : {1}, deps : {{}}] ] \* none yet
Live == { p \in Ports : t[p].ver # "0" }
T == [ p \in Live |-> t[p] ]
Edit == \E p \in Ports : \E v \in Vers \cup {"0"}, ds \in SUBSET (Lower[p] \cap Ports) : v # t[p].ver /\
   t' = [t EXCEPT ![p] = IF v = "0" THEN [coll |-> "z", ver |-> v, rel |-> 1, deps |-> {}]
                        ELSE [coll |-> Home(p), ver |-> v, rel |-> 1, deps |-> { [full |-> d, port |-> d] : d \in ds }]] /\ UNCHANGED <<w, db>>
\* somebody installs, or removes, something
Hand == /\ \E n \in (Offered(w) \cap {"a", "bash"}) \cup Junk :
            db' = IF n \in DOMAIN db THEN Without(db, {n}) ELSE (n :> DbRec(IF n \in Offered(w) THEN Offer(w, n) ELSE Rec(n, "1", "", {}, ""), FALSE)) @@ db
        /\ UNCHANGED <<w, t>>
\* what the packager yields for p: with or without a companion, in the basic sets or not
Outs(p) == { [rc |-> rc, gone |-> {p, p \o ".devel"} \cap DOMAIN w.idx[t[p].coll],
   recs |-> (p :> Rec(p, t[p].ver, t[p].coll, s, "")) @@ (IF g THEN (p \o ".devel") :> Rec(p \o ".devel", t[p].ver, t[p].coll, {}, "devel") ELSE <<>>)] :
     rc \in {0, 1}, g \in (IF p = "a" THEN BOOLEAN ELSE {FALSE}), s \in (IF p = "a" THEN {{}, {"devel"}} ELSE {{}}) }

EnvLaws(x, d, p, e) ==
  /\ Law("nothing else in the environment", \A q \in DOMAIN e : e[q].sets \cap Basic # {} \/ \E r \in DepPorts(T, p) : q \in Group(x, r))
  /\ Law("everything is there", \A q \in P!Known(T, p) \cap Offered(x) : q \in DOMAIN e /\ (q \o ".devel" \in Offered(x) => q \o ".devel" \in DOMAIN e))
  /\ Law("what was lying around does not matter", e = Env(x, T, Without(d, DOMAIN d \ Basics(d)), p))
  /\ Law("not even itself", p \in DOMAIN e => e[p].sets \cap Basic # {})
  /\ Law("dependencies come with theirs", \A q \in P!Known(T, p), r \in Offered(x) : r \in P!Below(T, q) => r \in DOMAIN e)
  /\ Law("basic packages stay as they were", \A q \in Basics(d) : e[q] = d[q])

Single == \E p \in Live : \E o \in Outs(p) : LET d == Core(w, db) b == Built(w, T, d, p, o) IN
  /\ EnvLaws(w, d, p, b.env)
  /\ CoreOk(w, db) /\ DepsOk(w, T, p)
  /\ w' = b.w /\ db' = b.db /\ t' = t
  /\ Law("the basic packages are there", \A q \in SetMembers(w, "chroot") \cup {"cards.devel"} : q \in DOMAIN d)
  /\ IF o.rc # 0 THEN Law("a failed build publishes nothing", b.w = w)
     ELSE /\ Law("it is built", ~NeedsBuild(b.w, T, p) /\ b.db[p].ver = t[p].ver)
          /\ Law("nothing else is", \A q \in Live \ {p} : NeedsBuild(b.w, T, q) = NeedsBuild(w, T, q))
          /\ Law("the next one starts from the same place", \A q \in Live : LET e == Env(b.w, T, b.db, q) e0 == Env(b.w, T, d, q) IN
                 p \notin DOMAIN e \/ p \in Basics(b.db) \/ p \in DepPorts(T, q))

\* every way through a collection; F: the ports whose build fails
RECURSIVE Ways(_, _, _, _, _)
Yield(x, p, F) == [rc |-> IF p \in F THEN 1 ELSE 0, gone |-> {p, p \o ".devel"} \cap DOMAIN x.idx[t[p].coll], recs |-> (p :> Rec(p, t[p].ver, t[p].coll, {}, ""))]
Ways(x, d, todo, done, F) == IF todo = {} THEN { [ok |-> TRUE, w |-> x, db |-> d, done |-> done] } ELSE
  UNION { LET b == Built(x, T, d, p, Yield(x, p, F)) IN
    IF EnvLaws(x, d, p, b.env) /\ Law("what it needs has been built", \A q \in P!Below(T, p) \cap done : b.env[q].ver = t[q].ver)
    THEN IF b.ok THEN Ways(b.w, b.db, todo \ {p}, done \cup {p}, F) ELSE { [ok |-> FALSE, w |-> x, db |-> b.db, done |-> done] } ELSE {} : p \in Ready(T, todo) }
Whole == \E c \in Colls, F \in SUBSET Live : LET x == Cleared(w, T, c) todo == ToBuild(w, T, c) W == Ways(x, Core(w, db), todo, {}, F) IN
  /\ Law("there is always a way", W # {})
  /\ \E y \in W :
    /\ w' = y.w /\ db' = y.db /\ t' = t
    /\ Law("it ends unless a build fails", y.ok <=> todo \cap F = {})
    /\ Law("all of it is built", y.ok => ToBuild(y.w, T, c) = {})
    /\ Law("only what was to be built", ToBuild(y.w, T, c) = todo \ y.done)
    /\ Law("other collections are left alone", \A k \in Colls \ {c} : y.w.idx[k] = w.idx[k] /\ y.w.loc[k] = w.loc[k])
    /\ Law("binaries without a port are gone", \A n \in CollMembers(w, c) \ Live : n \in DOMAIN w.idx[c] => Offer(w, n).fn \notin DOMAIN y.w.loc[c])
  /\ Law("the way does not matter", \A y, z \in W : y.ok /\ z.ok => y.w = z.w /\ Basics(y.db) = Basics(z.db))
Next == Edit \/ Hand \/ Single \/ Whole
Spec == Init /\ [][Next]_vars
Small == Cardinality(DOMAIN db \ {"bash", "cards.devel"}) <= Most
================================================================================
