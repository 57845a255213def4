---------------------------- MODULE PkgCrashTrace -----------------------------
(* What was left on the real disk by killing, or by failing a system call of, *)
(* one real command, judged against PkgCrash.  A case is                       *)
(*   [s, op, runs]   runs: [c |-> state left, act |-> what was repeated,       *)
(*                          rc |-> its exit status, r |-> state after it]      *)
(* for kills, and [c, rc, said, flush] for failed calls (said: it told the     *)
(* user; flush: the call that failed was to flush a record to the disk).       *)
EXTENDS PkgCrash, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, j

CrashBad(s, op, x) ==
  LET want == Again(op, x.c)
      did  == IF x.act THEN <<IF op.cmd = "pkgadd" THEN [op EXCEPT !.f = TRUE] ELSE op>> ELSE <<>>
      end  == IF x.act THEN x.r ELSE x.c
  IN {n \in CrashNames : ~CrashProp(n, s, op, x.c)}
     \cup (IF want # did THEN {"~again"} ELSE {})
     \cup (IF x.act /\ x.rc # 0 THEN {"RecoveryRefused"} ELSE {})
     \cup (IF SameEnd(s, op, x.c, end) THEN {} ELSE {"Recovers"})

(* An I/O error: the right end, or the user is told.  A packaged version that  *)
(* stays in the rejected area although it equals the kept one does no harm.    *)
Spare(s, op, t, f) ==
  IF op.cmd = "pkgadd" /\ op.u
  THEN {REJ \o "/" \o p : p \in {q \in RegPaths(KeepOf(s, op)) :
          LET rp == REJ \o "/" \o q IN
          rp \in DOMAIN t /\ rp \notin DOMAIN f /\ t[rp] = EntAt(t, op.arc, q)}}
  ELSE {}
FaultBad(s, op, x) ==
  LET f == Apply(s, op)
      right(t) == /\ NormDb(t.db) = NormDb(f.st.db)
                  /\ Without(View(t.fs), Spare(s, op, t.fs, f.st.fs)) = View(f.st.fs)
  IN {n \in {"OthersIntact", "BystandersIntact", "ProtectedIntact", "NothingNew"} : ~CrashProp(n, s, op, x.c)}
     \cup (IF x.rc = 0 /\ ~x.said /\ ~(f.rc = 0 /\ right(x.c)) THEN {"SilentlyWrong"} ELSE {})
     \cup (IF x.flush /\ x.rc = 0 /\ ~x.said THEN {"FlushFailed"} ELSE {})

Diff(s, op, x) ==
  LET a == View(Final(s, op).fs)  b == View(IF "act" \in DOMAIN x /\ x.act THEN x.r.fs ELSE x.c.fs)
  IN {p \in DOMAIN a \cup DOMAIN b : \/ p \notin DOMAIN a \/ p \notin DOMAIN b \/ a[p] # b[p]}

Init == k \in 1..Len(Cases) /\ j = 0
Next ==
  LET C == Cases[k] IN
  /\ j < Len(C.runs) /\ j' = j + 1 /\ k' = k
  /\ LET x == C.runs[j + 1]
         bad == IF "act" \in DOMAIN x THEN CrashBad(C.s, C.op, x) ELSE FaultBad(C.s, C.op, x)
     IN PrintT("CASE " \o ToJson([k |-> k, j |-> j + 1, bad |-> bad, diff |-> IF bad = {} THEN {} ELSE Diff(C.s, C.op, x)]))
Spec == Init /\ [][Next]_<<k, j>>
=============================================================================
