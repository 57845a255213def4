---------------------------- MODULE RepoConcTrace ----------------------------
(* Judges real `cards' commands that overlapped. A case is one of             *)
(*  [kind "in", w, pre, A, B, want, rcB, m1, m2, rcA, f]   B ran while A was      *)
(*      stopped holding the lock: m1, m2 before and after B, f after A, want   *)
(*      after an undisturbed A                                                 *)
(*  [kind "out", w, pre, A, rep, m1, rcA, f]  B ran (rep, a case for RepoTrace) *)
(*      while A was stopped at another moment                                  *)
(*  [kind "free", w, pre, ops, rcs, f]        several commands ran at once     *)
(*  [kind "sig", want, rcA, f]                a signal while A held the lock   *)
(*  [kind "calls", calls]                     lock and change calls of one     *)
EXTENDS RepoTrace, RepoConc
FitsAll(m) == FilesFit([inst |-> m.inst, sh |-> m.sh], Db(m.db))
SameAll(a, b) == Db(a.db) = Db(b.db) /\ a.inst = b.inst /\ a.sh = b.sh
Crash(rc) == rc < 0 \/ rc > 128
CallsOk(C) == \A n \in DOMAIN C : C[n] = "M" => \E a \in 1..(n - 1) : C[a] = "EX" /\ \A b \in a..n : C[b] # "UN"
\* whatever B finds the indices to be, and whether the package A is busy with counts or not, it has something to change
Busy(c) == \A w \in {World(c.w), Synced(World(c.w))} :
  LET D == Db(c.m1.db) O == Db(c.pre) W == Db(c.want.db)
      same == { p \in DOMAIN D : p \in DOMAIN O /\ D[p] = O[p] /\ p \in DOMAIN W /\ D[p] = W[p] } IN
  \A X \in {D, O, W, [p \in same |-> D[p]]} \cup { Without(D, {p}) : p \in DOMAIN D \ same } : Touched(Work(w, X, c.B)) # {}
InBad(c) == If(Busy(c) => c.rcB # 0, "NotExcluded") \cup If(SameAll(c.m1, c.m2), "ChangedWhileLocked") \cup If(~Crash(c.rcB) /\ ~Crash(c.rcA), "Crashed")
            \cup If(c.rcA = 0 /\ SameAll(c.f, c.want), "Disturbed")
OutBad(c) ==
  LET w == World(c.w) m1 == Db(c.m1.db) m2 == Db(c.rep.post) f == Db(c.f.db)
      ks == { Work(w, Db(c.pre), c.A), Work(w, m2, c.A), Late(w, Db(c.pre), m2, c.A) } IN
  { "Other:" \o n : n \in Bad(c.rep) }
  \cup If(FitsAll(c.f), "NotWhole") \cup If(AfterKeep(ks, m2, f), "Undone") \cup If(AfterMark(Db(c.pre), ks, m2, f), "Mark") \cup If(~Crash(c.rcA), "Crashed")
  \cup If(Clear(ks, m1, m2) => c.rcA = 0 /\ \A k \in ks : (\A p \in k.put : OfferedBy(k, f, p)) /\ \A p \in k.first : p \notin DOMAIN f, "NotDone")
FreeBad(c) ==
  LET w == World(c.w) v == Synced(w) db == Db(c.pre) f == Db(c.f.db) K == { c.ops[n].k : n \in DOMAIN c.ops } IN
  If(FitsAll(c.f), "NotWhole") \cup If(\A n \in DOMAIN c.rcs : ~Crash(c.rcs[n]), "Crashed")
  \cup If(\A p \in DOMAIN f : (p \in DOMAIN db /\ Unmarked(f[p]) = Unmarked(db[p])) \/ \E x \in {w, v} : p \in Offered(x) /\ Plain(f[p]) = Plain(DbRec(Offer(x, p), FALSE)), "Undone")
  \cup If(K \cap {"remove", "upgrade"} = {} => DOMAIN db \subseteq DOMAIN f, "Lost")
  \cup If(K = {"install"} => \A n \in DOMAIN c.ops : c.rcs[n] = 0 => \A p \in Close(w, db, InstallRoots(w, db, c.ops[n].args)) : p \in DOMAIN f /\ Plain(f[p]) = Plain(DbRec(Offer(w, p), FALSE)), "NotDone")
ConcBad(c) ==
  CASE c.kind = "in" -> InBad(c) [] c.kind = "out" -> OutBad(c) [] c.kind = "free" -> FreeBad(c)
    [] c.kind = "sig" -> If(c.rcA = 0 /\ SameAll(c.f, c.want), "Interrupted")
    [] c.kind = "calls" -> If(CallsOk(c.calls), "ChangeOutsideLock")
CNext == i < Len(Cases) /\ i' = i + 1 /\ PrintT("C " \o ToJson([k |-> i', bad |-> SetToSeq(ConcBad(Cases[i']))]))
CSpec == Init /\ [][CNext]_i
=============================================================================
