------------------------------- MODULE RepoConc -------------------------------
(* Several `cards' commands at once. Each plans from the database it found,   *)
(* then takes the lock for one package at a time, looks at the database again *)
(* and changes that package.                                                  *)
(* run: as in RepoCrash, and [st ("run", "done", "failed"), seen: the packages *)
(* it takes for installed]                                                    *)
EXTENDS RepoCrash

Holds(x) == x.st = "run" /\ x.at # ""
Run(b, seen) == [k |-> b.k, db0 |-> b.db0, ph |-> b.ph, todo |-> b.todo, at |-> b.at, st |-> "run", seen |-> seen]
Starting(d, op) == Run(Begin(d, op), DOMAIN d.db)
\* what one more step of run x can lead to, the others being Os
Moves(d, x, Os) ==
  IF x.st # "run" THEN {}
  ELSE IF x.ph = "done" THEN {<<d, [x EXCEPT !.st = "done"]>>}
  ELSE { LET e == s[1] y == Run(s[2], x.seen) IN
         IF x.at = "" /\ y.at # ""
         THEN IF \E o \in Os : Holds(o) THEN <<d, [x EXCEPT !.st = "failed"]>>
              \* not as it was planned any more
              ELSE IF (y.at \in x.seen) # (y.at \in DOMAIN d.db) THEN <<d, [x EXCEPT !.st = "failed"]>>
              ELSE <<e, [y EXCEPT !.seen = DOMAIN d.db]>>
         ELSE IF x.at # "" /\ y.at = "" THEN <<e, [y EXCEPT !.seen = DOMAIN e.db]>>
         ELSE <<e, y>> : s \in Steps(d, x) }

-----------------------------------------------------------------------------
(* What must hold whatever the interleaving *)
\* w: the world, pre: the database before all of them, ks: the work of each, f: a database found
OfferedBy(k, f, p) == p \in k.put /\ p \in DOMAIN f /\ Plain(f[p]) = Plain(DbRec(Offer(k.v, p), FALSE))
Origin(pre, ks, f, p) ==
  IF p \in DOMAIN f THEN (p \in DOMAIN pre /\ f[p] = pre[p]) \/ \E k \in ks : OfferedBy(k, f, p)
  ELSE p \notin DOMAIN pre \/ \E k \in ks : p \in k.first \cup k.last
Apart(ks) == \A k1, k2 \in ks : k1 # k2 => Touched(k1) \cap Touched(k2) = {}
Achieved(k, f) == (\A p \in k.put : OfferedBy(k, f, p)) /\ \A p \in k.first \cup k.last : p \notin DOMAIN f

(* One command A, under way when another one comes in between and ends; m1, m2: the databases before and after *)
(* that one, f: the database after A. ks: what A may have planned, before or after.                            *)
Changed(m1, m2) == { p \in DOMAIN m1 \cup DOMAIN m2 : ~(p \in DOMAIN m1 /\ p \in DOMAIN m2 /\ m1[p] = m2[p]) }
\* a removal that found its targets before, and what nobody needs any more afterwards
Late(w, pre, m2, op) ==
  LET k == Work(w, pre, op) f == k.first IN
  IF op.k # "remove" THEN k ELSE [k EXCEPT !.last = @ \cup (DOMAIN m2 \ (f \cup DOMAIN Sweep(w.groups, Without(m2, f))))]
AfterKeep(ks, m2, f) == \A p \in DOMAIN m2 \cup DOMAIN f : OldAt(m2, [db |-> f], p) \/ \E k \in ks :
   OfferedBy(k, f, p) \/ (p \in k.first \cup k.last /\ p \notin DOMAIN f)
\* (what the other one removed and A, not planning anew, installs again may get either mark)
AfterMark(pre, ks, m2, f) == \A p \in DOMAIN f : IF p \in DOMAIN m2 THEN f[p].auto = m2[p].auto ELSE p \in DOMAIN pre \/ \E k \in ks : p \in k.free \/ f[p].auto = (p \notin k.roots)
\* what came in between did not concern A
Clear(ks, m1, m2) == Cardinality(ks) = 1 /\ \A k \in ks : Touched(k) \cap Changed(m1, m2) = {}
=============================================================================
