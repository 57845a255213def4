----------------------------- MODULE PkgConcMC -----------------------------
(* Every interleaving of Procs commands from every state PkgDbMC reaches      *)
(* within MaxOps commands.                                                    *)
EXTENDS PkgDbMC, PkgConc
CONSTANTS MaxOps, Procs,
          UseLock        \* FALSE: nobody locks (the property must then fail)
VARIABLES n, s, ps
cvars == <<st, forced, n, s, ps>>
Query == [cmd |-> "query"]
CInit == Init /\ n = 0 /\ s = st /\ ps = <<>>
Prefix == ps = <<>> /\ n < MaxOps /\ n' = n + 1 /\ (\E o \in Ops : Step(o)) /\ s' = st' /\ UNCHANGED ps
New(o) == [op |-> o, pc |-> "new", s0 |-> <<>>, w |-> [ph |-> "none"], rc |-> 0, lines |-> {}]
\* one of the commands is a writer that is accepted, the others are anything
Begin == /\ ps = <<>>
         /\ \E f \in [1..Procs -> Adds \cup Rms \cup {Query}] :
              /\ ~Reads(f[1]) /\ Apply(st, f[1]).rc = 0
              /\ ps' = [i \in 1..Procs |-> New(f[i])]
         /\ UNCHANGED <<st, forced, n, s>>
Free(i) == \A j \in DOMAIN ps \ {i} : ps[j].pc = "in" => Reads(ps[i].op) /\ Reads(ps[j].op)
Set(i, p) == ps' = [ps EXCEPT ![i] = p]
Rest == UNCHANGED <<forced, n, s>>
TakeLock(i) ==
  LET p == ps[i] IN
  /\ p.pc = "new" /\ Rest /\ UNCHANGED st
  /\ IF UseLock /\ ~Free(i) THEN Set(i, [p EXCEPT !.pc = "locked", !.rc = 1])
     ELSE IF Reads(p.op) THEN Set(i, [p EXCEPT !.pc = "in", !.w = [ph |-> "read", todo |-> Names(st)]])
     ELSE Set(i, [p EXCEPT !.pc = "in", !.s0 = <<st>>, !.w = IF Apply(st, p.op).rc = 0 THEN Start(st, p.op) ELSE [ph |-> "refuse"]])
Work(i) ==
  LET p == ps[i] IN
  /\ p.pc = "in" /\ Rest
  /\ CASE p.w.ph = "read" /\ p.w.todo # {} ->
            \E x \in p.w.todo :
              /\ Set(i, [p EXCEPT !.w.todo = @ \ {x}, !.lines = @ \cup (IF x \in Names(st) THEN {Line(st.db, x)} ELSE {})])
              /\ UNCHANGED st
       [] p.w.ph = "read" -> Set(i, [p EXCEPT !.pc = "out"]) /\ UNCHANGED st
       [] p.w.ph = "refuse" -> Set(i, [p EXCEPT !.pc = "out", !.rc = 1]) /\ UNCHANGED st
       [] p.w.ph = "done" -> Set(i, [p EXCEPT !.pc = "out"]) /\ UNCHANGED st
       [] OTHER -> \E v \in Succ(p.s0[1], p.op, [p.w EXCEPT !.st = st]) :
                     st' = [v.st EXCEPT !.log = <<>>, !.trig = <<>>] /\ Set(i, [p EXCEPT !.w = [v EXCEPT !.st = <<>>]])
CNext == Prefix \/ Begin \/ \E i \in DOMAIN ps : TakeLock(i) \/ Work(i)
CSpec == CInit /\ [][CNext]_cvars
P(p) == <<p.op, p.pc, p.rc, p.lines, p.w.ph, IF "todo" \in DOMAIN p.w THEN p.w.todo ELSE {}, IF "k" \in DOMAIN p.w THEN p.w.k ELSE 0,
          IF p.s0 = <<>> THEN <<>> ELSE <<NormDb(p.s0[1].db), p.s0[1].fs>> >>
CView == <<NormDb(st.db), st.fs, st.rules, NormDb(s.db), s.fs, [i \in DOMAIN ps |-> P(ps[i])], IF ps = <<>> THEN n ELSE 0>>
Inv_Exclusive == \A i, j \in DOMAIN ps : i # j /\ ps[i].pc = "in" /\ ps[j].pc = "in" => Reads(ps[i].op) /\ Reads(ps[j].op)
Over == ps # <<>> /\ \A i \in DOMAIN ps : ps[i].pc \in {"out", "locked"}
Inv_Serial == Over => Serial([s EXCEPT !.log = <<>>], [i \in DOMAIN ps |-> [op |-> ps[i].op, rc |-> ps[i].rc, lines |-> ps[i].lines, may |-> ps[i].pc = "locked"]], st)
=============================================================================
