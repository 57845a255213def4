------------------------------- MODULE PkgDbMC --------------------------------
(* Exhaustive exploration of PkgDb over a small universe: every state any     *)
(* sequence of operations can reach, with every property predicate evaluated  *)
(* on every transition.  With Dump on, every transition is printed, so that   *)
(* the drivers can put the real system into that state and take that step.    *)
EXTENDS PkgDb, Json

CONSTANTS Scope,   \* which slice of the universe: "own", "conf", "confq" (a part of it), "scr"
          Dump     \* print transitions

VARIABLES st, forced

F(c, m)  == [t |-> "f", c |-> c, m |-> m, tm |-> "1000000000"]
D(m)     == [t |-> "d", c |-> "", m |-> m, tm |-> ""]
L(c)     == [t |-> "l", c |-> c, m |-> "777", tm |-> ""]
E(p, n)  == [p |-> p, n |-> n]

Arc(n, v, ents) ==
  [name |-> n, meta |-> <<"N" \o n, "V" \o v, "r1", "aany", "S1", "B1700000000">>, arch |-> "any",
   alias |-> <<>>, ents |-> ents, probe |-> "e/a", pre |-> "", post |-> "", prer |-> "",
   postr |-> "", bad |-> "none"]
Scr(a, pre, post, prer, postr) ==
  [a EXCEPT !.pre = pre, !.post = post, !.prer = prer, !.postr = postr]

Archives ==
  CASE Scope = "own" ->
         { Arc("p", "1", <<E("e", D("755")), E("e/a", F("p1a", "644")), E("b", F("p1b", "644"))>>),
           Arc("p", "2", <<E("e", D("755")), E("e/s", D("700")), E("e/s/x", F("p2x", "755")), E("b", F("p2b", "644"))>>),
           Arc("q", "1", <<E("e", D("755")), E("e/a", F("q1a", "600")), E("l", L("b"))>>),
           Arc("q", "2", <<E("e/s/x", F("q2x", "644")), E("l", F("q2l", "644"))>>) }
    [] Scope = "conf" ->
         { Arc("p", "1", <<E("e", D("755")), E("e/a", F("p1a", "644")), E("b", F("p1b", "644"))>>),
           Arc("p", "2", <<E("e", D("755")), E("e/a", F("p2a", "644")), E("b", F("p2b", "600")), E("e/n", F("n", "644"))>>),
           Arc("p", "3", <<E("e", D("755")), E("e/a", F("", "644")), E("b", L("e/a"))>>),
           Arc("q", "1", <<E("e", D("755")), E("e/n", F("q1n", "644"))>>) }
    [] Scope = "confq" ->
         { Arc("p", "1", <<E("e", D("755")), E("e/a", F("p1a", "644")), E("b", F("p1b", "644"))>>),
           Arc("p", "2", <<E("e", D("755")), E("e/a", F("p2a", "644")), E("b", F("", "600"))>>),
           Arc("p", "3", <<E("e", D("755")), E("e/a", L("b"))>>) }
    [] Scope = "scr" ->
         { Scr(Arc("p", "1", <<E("e", D("755")), E("e/a", F("p1a", "644"))>>), "p1pre:ok", "p1post:ok", "p1prer:ok", "p1postr:fail"),
           Scr(Arc("p", "2", <<E("e", D("755")), E("b", F("p2b", "644"))>>), "", "p2post:fail", "p2prer:fail", ""),
           Scr(Arc("p", "3", <<E("e", D("755")), E("e/a", F("p3a", "644"))>>), "p3pre:fail", "", "", ""),
           Scr(Arc("q", "1", <<E("e", D("755")), E("e/a", F("q1a", "644"))>>), "q1pre:ok", "", "", "q1postr:ok") }

R(ev, k, s, act) == [ev |-> ev, pat |-> [k |-> k, s |-> s], act |-> act]
RuleSets ==
  CASE Scope = "own"  -> { <<>>, <<R("INSTALL", "exact", "b", FALSE)>> }
    [] Scope = "conf" -> { <<R("UPGRADE", "prefix", "e/", FALSE)>>,
                           <<R("UPGRADE", "all", "", FALSE), R("UPGRADE", "exact", "b", TRUE)>>,
                           <<R("UPGRADE", "exact", "b", FALSE), R("INSTALL", "exact", "e/n", FALSE)>> }
    [] Scope = "confq" -> { <<R("UPGRADE", "prefix", "e/", FALSE)>>,
                           <<R("UPGRADE", "all", "", FALSE), R("UPGRADE", "exact", "b", TRUE)>>,
                           <<R("UPGRADE", "exact", "b", FALSE), R("INSTALL", "exact", "e/a", FALSE)>> }
    [] Scope = "scr"  -> { <<>>, <<R("UPGRADE", "exact", "e/a", FALSE)>> }

Writes ==
  CASE Scope = "own"  -> { E("e/a", F("ua", "644")), E("e/s/x", F("ux", "644")) }
    [] Scope = "conf" -> { E("e/a", F("ua", "644")), E("b", F("p2b", "600")), E("e/n", F("un", "644")) }
    [] Scope = "confq" -> { E("e/a", F("ua", "644")), E("b", F("ub", "600")), E("e/a", F("p2a", "600")) }
    [] Scope = "scr"  -> { E("e/a", F("ua", "644")) }

Adds  == {[cmd |-> "pkgadd", arc |-> a, u |-> u, f |-> f, i |-> i, how |-> "ok", root |-> "/", comp |-> "gz"] :
            a \in Archives, u \in BOOLEAN, f \in BOOLEAN,
            i \in IF Scope = "scr" THEN BOOLEAN ELSE {FALSE}}
Rms   == {[cmd |-> "pkgrm", name |-> n, how |-> "ok", root |-> "/"] : n \in {"p", "q"}}
Users == {[cmd |-> "user", act |-> "write", path |-> w.p, node |-> w.n] : w \in Writes}
         \cup {[cmd |-> "user", act |-> "delete", path |-> "e/a"]}
         \cup (IF Scope \in {"conf", "confq"}
               THEN {[cmd |-> "user", act |-> "rules", rules |-> r] : r \in RuleSets} ELSE {})
Ops == Adds \cup Rms \cup Users

\* writing or deleting where a directory is in the way is not what is studied
Sensible(op) ==
  op.cmd = "user" /\ op.act # "rules" =>
    /\ op.path \in DOMAIN st.fs => st.fs[op.path].t # "d"
    /\ \A x \in Ancestors(op.path) : x \in DOMAIN st.fs => st.fs[x].t = "d"

Init == /\ forced = FALSE
        /\ \E r \in RuleSets :
             st = [db |-> [x \in {} |-> 0], fs |-> [x \in {} |-> 0], log |-> <<>>, rules |-> r, trig |-> <<>>]

Step(op) ==
  LET s0 == [st EXCEPT !.log = <<>>]
      r  == Apply(s0, op)
  IN /\ Sensible(op)
     /\ st' = r.st
     /\ forced' = (forced \/ (op.cmd = "pkgadd" /\ op.f))
     /\ Assert(\A n \in PropNames : Prop(n, s0, op, r.rc, r.st),
               <<"property fails on a transition", {n \in PropNames : ~Prop(n, s0, op, r.rc, r.st)}, s0, op>>)
     /\ (Dump => PrintT("EDGE " \o ToJson([s |-> s0, op |-> op])))
Next == \E op \in Ops : Step(op)
Spec == Init /\ [][Next]_<<st, forced>>

\* the log of the last command is not part of what is remembered
StView == <<NormDb(st.db), st.fs, st.rules>>

Inv_OneOwner == OneOwner(st)
\* no file below the rejected area is ever owned
Inv_NoRejectedOwned == \A n \in Names(st) : \A e \in FilesOf(st, n) : ~InRej(PathOf(e)) \/ IsDirEntry(e)
Inv_RecordsNamed == \A n \in Names(st) : ("N" \o n) \in Range(st.db[n].meta)
=============================================================================
