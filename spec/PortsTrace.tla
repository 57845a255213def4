---------------------------- MODULE PortsTrace ----------------------------
(* Judges what the real commands printed about a tree.                        *)
(* case: [t, ask, arg, rc, rows]; a row is [l, coll, name, ver, rel, from]    *)
EXTENDS Ports, Json, TLC, TLCExt, IOUtils, SequencesExt
Cases == JsonDeserialize(IOEnv.CASES)
Tree(c) == TLCEval([ p \in DOMAIN c.t |-> [coll |-> c.t[p].coll, ver |-> c.t[p].ver, rel |-> c.t[p].rel, deps |-> Range(c.t[p].deps)] ])
Names(rows) == [ i \in DOMAIN rows |-> rows[i].name ]

LevelBad(c, t) ==
  LET lm == TLCEval(Levels(t)) rows == TLCEval(SelectSeq(c.rows, LAMBDA r : r.k = "port"))
      warn == SelectSeq(c.rows, LAMBDA r : r.k = "bad") IN
  (IF c.rc = 0 THEN {} ELSE {"Failed"}) \cup
  (IF Once(Names(rows)) /\ Range(Names(rows)) = DOMAIN t THEN {} ELSE {"ListedOnce"}) \cup
  (IF \A i \in DOMAIN rows : rows[i].name \in DOMAIN t => rows[i].coll = t[rows[i].name].coll THEN {} ELSE {"Collection"}) \cup
  (IF \A i \in DOMAIN rows : rows[i].name \in DOMAIN t => (rows[i].name \in DOMAIN lm => rows[i].l = lm[rows[i].name]) THEN {} ELSE {"LevelExact"}) \cup
  (IF DOMAIN lm = DOMAIN t => Ordered(t, Names(rows)) THEN {} ELSE {"Order"}) \cup
  (IF \A i, j \in DOMAIN rows : i < j => rows[i].l <= rows[j].l THEN {} ELSE {"SortedByLevel"}) \cup
  (IF { <<warn[i].name, warn[i].dep>> : i \in DOMAIN warn } = BadDeps(t) THEN {} ELSE {"UnknownReported"})

\* names that are no ports may be shown with the ports
Ports(rows, t) == SelectSeq(rows, LAMBDA r : r.name \in DOMAIN t)
Others(rows, t) == { rows[i].name : i \in DOMAIN rows } \ DOMAIN t
DependsBad(c, t) ==
  LET lm == TLCEval(Levels(t)) rows == TLCEval(Ports(c.rows, t)) ns == TLCEval(Names(rows)) p == c.arg cl == TLCEval(Closure(t, p)) IN
  (IF c.rc = 0 THEN {} ELSE {"Failed"}) \cup
  (IF Others(c.rows, t) \subseteq UNION { Needs(t, q) : q \in cl } THEN {} ELSE {"NothingElse"}) \cup
  (IF p \notin DOMAIN lm THEN (IF Range(ns) \subseteq cl /\ p \in Range(ns) THEN {} ELSE {"NothingElse"})
   ELSE (IF Range(ns) = cl /\ Once(ns) THEN {} ELSE {"ExactSet"}) \cup
        (IF Ordered(t, ns) THEN {} ELSE {"Order"}) \cup
        (IF \A i \in DOMAIN rows : rows[i].l = lm[rows[i].name] THEN {} ELSE {"LevelExact"}))

TreeBad(c, t) ==
  LET rows == TLCEval(Ports(c.rows, t)) ns == TLCEval(Names(rows)) p == c.arg cl == TLCEval(Closure(t, p))
      \* the row under which row i hangs
      Parent(i) == CHOOSE j \in 1..(i - 1) : c.rows[j].l = c.rows[i].l - 1 /\ \A k \in (j + 1)..(i - 1) : c.rows[k].l >= c.rows[i].l
      HasParent(i) == \E j \in 1..(i - 1) : c.rows[j].l = c.rows[i].l - 1 IN
  (IF c.rc = 0 THEN {} ELSE {"Failed"}) \cup
  (IF Range(ns) = cl THEN {} ELSE {"ExactSet"}) \cup
  (IF Others(c.rows, t) \subseteq UNION { Needs(t, q) : q \in cl } THEN {} ELSE {"NothingElse"}) \cup
  (IF Len(c.rows) >= 1 /\ c.rows[1].name = p /\ \A i \in DOMAIN c.rows : i > 1 => HasParent(i) /\ c.rows[Parent(i)].name \in DOMAIN t /\ c.rows[i].name \in Needs(t, c.rows[Parent(i)].name)
   THEN {} ELSE {"Tree"}) \cup
  \* each needed port is expanded
  (IF \A q \in cl : \E i \in DOMAIN c.rows : c.rows[i].name = q /\
        Known(t, q) \subseteq { c.rows[j].name : j \in { j \in DOMAIN c.rows : j > i /\ c.rows[j].l = c.rows[i].l + 1 /\ \A k \in (i + 1)..j : c.rows[k].l > c.rows[i].l } }
   THEN {} ELSE {"Expanded"})

DependentBad(c, t) ==
  (IF c.rc = 0 THEN {} ELSE {"Failed"}) \cup
  (IF Range(Names(c.rows)) = Dependents(t, c.arg) \cup (IF c.arg \in DOMAIN t /\ \E d \in t[c.arg].deps : d.port = c.arg THEN Range(Names(c.rows)) \cap {c.arg} ELSE {})
      /\ Once(Names(c.rows)) THEN {} ELSE {"ExactSet"}) \cup
  (IF \A i \in DOMAIN c.rows : c.rows[i].name \in DOMAIN t => LET q == t[c.rows[i].name] IN c.rows[i].coll = q.coll /\ c.rows[i].ver = q.ver /\ c.rows[i].rel = q.rel THEN {} ELSE {"Details"})

Bad(c) == LET t == Tree(c) IN
  IF c.rc = 997 THEN {"Hangs"} ELSE
  IF \E i \in DOMAIN c.rows : c.rows[i].k = "?" THEN {"Unreadable"} ELSE
  CASE c.ask = "level" -> LevelBad(c, t) [] c.ask = "depends" -> DependsBad(c, t)
    [] c.ask = "deptree" -> TreeBad(c, t) [] c.ask = "dependent" -> DependentBad(c, t)
VARIABLE i
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1 /\ PrintT("C " \o ToJson([k |-> i', bad |-> SetToSeq(Bad(Cases[i']))]))
Spec == Init /\ [][Next]_i
=============================================================================
