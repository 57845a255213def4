------------------------------ MODULE PkgConc ------------------------------
(***************************************************************************)
(* Several commands at once on one database.  Each tries to take the lock  *)
(* (writers alone, readers together, nobody waits), makes its changes one   *)
(* at a time (PkgCrash) or reads record after record, and lets go.          *)
(***************************************************************************)
EXTENDS PkgCrash, PkgQuery

Reads(op) == op.cmd = "query"
Seen(db)  == {Line(db, n) : n \in DOMAIN db}

(* A finished run: [op, rc, lines, may]; rc 0 or 1, lines what a reader      *)
(* saw, may: it failed in a way that lets it count as not run.               *)
Perms(S) == {q \in [1..Cardinality(S) -> S] : \A a, b \in DOMAIN q : a # b => q[a] # q[b]}
RECURSIVE InOrder(_, _, _, _)
InOrder(s, runs, q, k) ==      \* the state after q in that order, or <<>>
  IF k > Len(q) THEN <<s>>
  ELSE LET x == runs[q[k]]  r == Apply(s, x.op) IN
       IF r.rc # x.rc \/ (Reads(x.op) /\ x.lines # Seen(s.db)) THEN <<>>
       ELSE InOrder(r.st, runs, q, k + 1)
SameDisk(a, b) == NormDb(a.db) = NormDb(b.db) /\ View(a.fs) = View(b.fs)
Serial(s, runs, final) ==
  \E D \in SUBSET {i \in DOMAIN runs : runs[i].rc # 0 /\ runs[i].may} :
    \E q \in Perms(DOMAIN runs \ D) :
      LET e == InOrder(s, runs, q, 1) IN e # <<>> /\ SameDisk(e[1], final)
=============================================================================
