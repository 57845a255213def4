------------------------------ MODULE PkgQuery ------------------------------
(***************************************************************************)
(* What pkginfo answers about the database (or about an archive).           *)
(*                                                                         *)
(* A query q = [k, arg] (k = "owner" has a pattern in pat, k = "archive",   *)
(* "meta", "footprint", "listarc" an archive in arc).  An answer is         *)
(* [rc, lines], rc 0 or 1, lines a set of records; dup is FALSE when every  *)
(* line came once.                                                          *)
(***************************************************************************)
EXTENDS PkgDb, IOUtils

Tail2(l) == SubSeq(l, 2, Len(l))
Having(m, c) == {Tail2(l) : l \in {x \in Range(m) : Ch(x, 1) = c}}
\* the value of a single-valued field
Field(m, c, default) == LET V == Having(m, c) IN IF V = {} THEN default ELSE CHOOSE v \in V : TRUE

(* a name is itself; an alias is the package that carries it               *)
Carriers(db, a) == IF a \in DOMAIN db THEN {a} ELSE {n \in DOMAIN db : a \in Range(db[n].alias)}

DepName(d) == SubSeq(d, 1, Len(d) - 10)     \* name and ten digits of build date
Line(db, n) == LET m == db[n].meta IN
  [auto |-> db[n].auto, coll |-> Field(m, "c", ""), name |-> n, ver |-> Field(m, "V", ""), rel |-> Field(m, "r", "1")]

Details(db, n) ==
  LET m == db[n].meta IN
  [name |-> n, desc |-> Field(m, "D", ""), alias |-> Having(m, "A"), categories |-> Having(m, "T"),
   sets |-> Having(m, "s"), group |-> Field(m, "g", ""), coll |-> Field(m, "c", ""), url |-> Field(m, "U", ""),
   license |-> Field(m, "L", ""), contributors |-> Field(m, "C", ""), packager |-> Field(m, "P", ""),
   ver |-> Field(m, "V", ""), rel |-> Field(m, "r", "1"), build |-> Field(m, "B", "0"),
   arch |-> Field(m, "a", ""), auto |-> db[n].auto, deps |-> {DepName(d) : d \in Having(m, "R")}]

(* sizes are printed as bytes below 1 K, else in hundredths of K or M       *)
SizeOk(m, unit, num) ==
  LET s == atoi(Field(m, "S", "0")) d(x) == IF x < 0 THEN -x ELSE x IN
  IF s < 1024 THEN unit = "" /\ num = s
  ELSE IF s < 1048576 THEN unit = "K" /\ d(num * 256 - s * 25) <= 128
  ELSE unit = "M" /\ d(num * 16384 - (s \div 64) * 100) <= 8192 + 100

ArcFields(a) == LET m == a.meta IN
  [name |-> a.name, desc |-> Field(m, "D", ""), group |-> Field(m, "g", ""), url |-> Field(m, "U", ""),
   license |-> Field(m, "L", ""), contributors |-> Field(m, "C", ""), packager |-> Field(m, "P", ""),
   ver |-> Field(m, "V", ""), rel |-> Field(m, "r", "0"), arch |-> Field(m, "a", ""), build |-> Field(m, "B", "0"),
   deps |-> Having(m, "R") \cup {a.name \o Field(m, "B", "0")}]

(* one footprint line per member of the archive                             *)
RegMode == [t |-> "f", m |-> "644"]
Foot(a) ==
  LET M(i) == a.ents[i].n
      FileAt(p) == a.ents[CHOOSE i \in DOMAIN a.ents : a.ents[i].p = p /\ a.ents[i].n.t # "h"].n
  IN {[p |-> f, t |-> "f", m |-> "644", to |-> "", empty |-> FALSE] : f \in {".META", ".MTREE"}}
     \cup {[p |-> s[1], t |-> "f", m |-> "755", to |-> "", empty |-> FALSE] :
              s \in {x \in {<<".PRE", a.pre>>, <<".POST", a.post>>, <<".PRER", a.prer>>, <<".POSTR", a.postr>>} : x[2] # ""}}
     \cup {CASE M(i).t = "d" -> [p |-> a.ents[i].p \o "/", t |-> "d", m |-> M(i).m, to |-> "", empty |-> FALSE]
             [] M(i).t = "l" -> [p |-> a.ents[i].p, t |-> "l", m |-> "777", to |-> M(i).c, empty |-> FALSE]
             [] M(i).t = "h" -> [p |-> a.ents[i].p, t |-> "f", m |-> FileAt(M(i).c).m, to |-> "", empty |-> FALSE]
             [] OTHER        -> [p |-> a.ents[i].p, t |-> "f", m |-> M(i).m, to |-> "", empty |-> M(i).c = ""]
             : i \in DOMAIN a.ents}

Yes(L) == [rc |-> 0, lines |-> L]
No     == [rc |-> 1, lines |-> {}]

(* the answers the database allows (an alias carried twice: either)          *)
Answers(db, q) ==
  CASE q.k = "installed" -> {Yes({Line(db, n) : n \in DOMAIN db})}
    [] q.k = "number"    -> {Yes({ToString(Cardinality(DOMAIN db))})}
    [] q.k = "list"      -> IF Carriers(db, q.arg) = {} THEN {No}
                            ELSE {Yes(Range(db[n].files)) : n \in Carriers(db, q.arg)}
    [] q.k = "owner"     -> IF q.pat.k = "bad" THEN {No}
                            ELSE {Yes({[coll |-> Field(db[n].meta, "c", ""), name |-> n, file |-> f] :
                                        n \in DOMAIN db, f \in UNION {Range(db[x].files) : x \in DOMAIN db}}
                                      \cap UNION {{[coll |-> Field(db[n].meta, "c", ""), name |-> n, file |-> f] :
                                         f \in {e \in Range(db[n].files) : Matches(q.pat, "/" \o e)}} : n \in DOMAIN db})}
    [] q.k = "details"   -> IF Carriers(db, q.arg) = {} THEN {Yes({})}
                            ELSE {Yes({Details(db, n)}) : n \in Carriers(db, q.arg)}
    [] q.k = "build"     -> IF Carriers(db, q.arg) = {} THEN {Yes({"0"})}
                            ELSE {Yes({Field(db[n].meta, "B", "0")}) : n \in Carriers(db, q.arg)}
    [] q.k = "archive"   -> IF q.arc.bad = "none" THEN {Yes({ArcFields(q.arc)})} ELSE {No}
    [] q.k = "meta"      -> IF q.arc.bad = "none" THEN {Yes(Range(q.arc.meta))} ELSE {No}
    [] q.k = "listarc"   -> IF q.arc.bad = "none" THEN {Yes(Manifest(q.arc))} ELSE {No}
    [] q.k = "footprint" -> IF q.arc.bad = "none" THEN {Yes(Foot(q.arc))} ELSE {No}
    [] q.k = "wrong"     -> {No}

(* What ties the answers together, whatever the database: checked by TLC on *)
(* every state of the small scopes.                                          *)
Only(S) == CHOOSE x \in S : TRUE
Laws(db) ==
  LET A(q) == Only(Answers(db, q)).lines
      I == A([k |-> "installed"])
      own(e) == A([k |-> "owner", pat |-> [k |-> "exact", s |-> "/" \o e]])
      F == UNION {Range(db[n].files) : n \in DOMAIN db}
  IN /\ A([k |-> "number"]) = {ToString(Cardinality(I))}
     /\ {l.name : l \in I} = DOMAIN db
     /\ \A n \in DOMAIN db :
          /\ A([k |-> "list", arg |-> n]) = {e \in F : n \in {l.name : l \in own(e)}}
          /\ \A a \in Range(db[n].alias) \ DOMAIN db :
               (\A x \in DOMAIN db \ {n} : a \notin Range(db[x].alias)) =>
                 \A k \in {"list", "details", "build"} : A([k |-> k, arg |-> a]) = A([k |-> k, arg |-> n])
     /\ A([k |-> "owner", pat |-> [k |-> "all", s |-> ""]]) = UNION {own(e) : e \in F}
=============================================================================
