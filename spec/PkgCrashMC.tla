----------------------------- MODULE PkgCrashMC -----------------------------
(* From every state PkgDbMC can reach, every accepted command, killed after   *)
(* any of its changes in any order: what is left satisfies the crash          *)
(* properties, and repeating the command ends where it would have ended.      *)
EXTENDS PkgDbMC, PkgCrash
CONSTANT MaxOps      \* how many commands before the one that is killed
VARIABLES op, s, w, n
vars == <<st, forced, op, s, w, n>>
NoOp == [cmd |-> "none"]

CInit == Init /\ op = NoOp /\ s = st /\ w = [ph |-> "idle"] /\ n = 0
Ready == op.cmd = "none"
\* the history before
Prefix == Ready /\ n < MaxOps /\ n' = n + 1 /\ (\E o \in Ops : Step(o)) /\ s' = st' /\ UNCHANGED <<op, w>>
Begin  == /\ Ready
          /\ \E o \in Adds \cup Rms :
               /\ Apply(st, o).rc = 0
               /\ op' = o /\ w' = Start(st, o)
          /\ UNCHANGED <<st, forced, s, n>>
Micro  == /\ ~Ready
          /\ w' \in Succ(s, op, w)
          /\ UNCHANGED <<st, forced, op, s, n>>
CNext == Prefix \/ Begin \/ Micro
CSpec == CInit /\ [][CNext]_vars

CView == <<NormDb(st.db), st.fs, st.rules, op, IF Ready THEN <<>> ELSE <<w.ph, w.todo, w.k, NormDb(w.st.db), w.st.fs>>>>

Ok1(c) == \A x \in CrashNames : CrashProp(x, s, op, c)
Recovers(c) ==
  LET q == Again(op, c) IN
  IF q = <<>> THEN SameEnd(s, op, c, c)
  ELSE LET r == Apply([c EXCEPT !.log = <<>>], q[1]) IN r.rc = 0 /\ SameEnd(s, op, c, r.st)
Inv_Crash   == ~Ready => \A c \in Disks(s, op, w) : Ok1(c)
Inv_Recover == ~Ready => \A c \in Disks(s, op, w) : Recovers(c)
\* undisturbed, the changes add up to the command
Inv_End     == (~Ready /\ w.ph = "done") => NormDb(w.st.db) = NormDb(Final(s, op).db) /\ View(w.st.fs) = View(Final(s, op).fs)
=============================================================================
