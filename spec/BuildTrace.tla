------------------------------ MODULE BuildTrace ------------------------------
(* Judges recorded runs of `cards create' against Build.  A case is            *)
(*   [w, t, db, root, setup, dry, arg, out, rc, envs, said, obs, post, inst,    *)
(*    sh, loc, log, other]                                                     *)
(* root, setup: may it run at all; out: what the packager does; envs: for each  *)
(* time it was called [port (the directory it was called in), arg, db, inst,    *)
(* sh, log (the scripts run since the call before)]; said, obs: ports reported  *)
(* as to be built, packages as without port; again: what --dry says after success; post, inst, sh, loc, log: database,*)
(* files, depot afterwards, scripts run since the last call.                    *)
EXTENDS Build, Json, TLC, TLCExt, IOUtils, SequencesExt
Cases == JsonDeserialize(IOEnv.CASES)
Rec(r) == [r EXCEPT !.deps = Range(r.deps), !.sets = Range(r.sets), !.alias = Range(r.alias), !.share = Range(r.share)]
Recs(d) == [ n \in DOMAIN d |-> Rec(d[n]) ]
World(w) == TLCEval([w EXCEPT !.groups = Range(w.groups), !.idx = [ c \in DOMAIN w.idx |-> Recs(w.idx[c]) ]])
Tree(t) == TLCEval([ p \in DOMAIN t |-> [t[p] EXCEPT !.deps = Range(t[p].deps)] ])
Outs(o) == TLCEval([ p \in DOMAIN o |-> [o[p] EXCEPT !.gone = Range(o[p].gone), !.recs = Recs(o[p].recs)] ])
If(b, n) == IF b THEN {} ELSE {n}
Same(a, b) == DOMAIN a = DOMAIN b /\ \A p \in DOMAIN a : Plain(a[p]) = Plain(b[p])
FilesFit(x, db) == DOMAIN x.inst = DOMAIN db /\ \A p \in DOMAIN db : x.inst[p] = db[p].id
Marks(db, post) == \A p \in DOMAIN db \cap DOMAIN post : p \in Basics(db) => post[p].auto = db[p].auto

\* of what was put in for this build, dependencies come before what needs them
LastOf(log, i) == \A j \in DOMAIN log : log[j] = log[i] => j <= i
InOrder(t, S, log) == \A i, j \in DOMAIN log :
  (LastOf(log, i) /\ LastOf(log, j) /\ {log[i], log[j]} \subseteq S \cap DOMAIN t /\ log[j] \in P!Known(t, log[i]) \ {log[i]}) => j < i
Times(log, p) == Cardinality({ j \in DOMAIN log : log[j] = p })
\* new: what has been put in for itself since the last call
EnvBad(w, t, db, p, x, new) ==
  LET e == Env(w, t, db, p) d == Recs(x.db) added == DepPkgs(w, t, p) \ Basics(db) IN
  If(\A q \in Range(x.log) \cup new \cup added : Times(x.log, q) = (IF q \in new THEN 1 ELSE 0) + (IF q \in added THEN 1 ELSE 0), "Again") \cup
  If(DOMAIN e \subseteq DOMAIN d, "EnvLacks") \cup If(DOMAIN d \subseteq DOMAIN e, "EnvDirty")
  \cup If(\A q \in DOMAIN d \cap DOMAIN e : Plain(d[q]) = Plain(e[q]), "EnvWrong")
  \cup If(FilesFit(x, d) /\ x.sh = <<>>, "EnvFiles") \cup If(Marks(db, d), "Marks") \cup If(x.arg = "-d" /\ t[p].coll \o "/" \o p = x.dir, "Where")
  \cup If(InOrder(t, DepPkgs(w, t, p) \ Basics(db), x.log), "Order")

\* the calls from the k-th on; todo: what is still to be built. Returns what is wrong.
RECURSIVE Calls(_, _, _, _, _, _, _)
Finish(c, w, t, db, failed, new) ==
  LET d == Recs(c.post) IN
  If(Len(c.log) = Cardinality(new) /\ Range(c.log) = new, "Again") \cup
  If(failed \/ c.dry \/ c.arg \notin CName(w) \/ Range(c.again) = ToBuild(w, t, c.arg), "StillToDo") \cup If(Same(d, db), "Result") \cup If(FilesFit(c, d) /\ c.sh = <<>>, "Files") \cup If(Marks(db, d), "Marks") \cup If(c.loc = w.loc, "Depot")
  \cup If(failed <=> c.rc # 0, "Status")
Calls(c, w, t, db, todo, k, new) ==
  IF k > Len(c.envs) THEN
    IF todo = {} THEN Finish(c, w, t, db, FALSE, new)
    ELSE IF \E p \in Ready(t, todo) : ~DepsOk(w, t, p) THEN If(c.rc # 0, "Status") \cup If(c.loc = w.loc, "Depot")
    ELSE {"NotBuilt"}
  ELSE LET x == c.envs[k] p == x.port IN
    IF p \notin Ready(t, todo) THEN {"BuiltOther"}
    ELSE IF ~DepsOk(w, t, p) THEN {"BuiltWithout"}
    ELSE LET b == Built(w, t, db, p, c.o[p]) IN
      EnvBad(w, t, db, p, x, new) \cup
      (IF ~b.ok THEN If(k = Len(c.envs), "WentOn") \cup Finish(c, b.w, t, b.db, TRUE, {})
       ELSE Calls(c, b.w, t, b.db, todo \ {p}, k + 1, Group(b.w, p)))
Inert(c, w, db) == If(c.envs = <<>> /\ Recs(c.post) = db /\ FilesFit(c, db) /\ c.loc = w.loc /\ c.log = <<>>, "NotInert")

Bad(c0) ==
  LET w == World(c0.w) t == Tree(c0.t) db == Recs(c0.db)
      c == [c0 EXCEPT !.out = <<>>] @@ [o |-> Outs(c0.out)]
      coll == c.arg \in CName(w)
      todo == IF coll THEN ToBuild(w, t, c.arg) ELSE {c.arg}
      core == Core(w, db)
      fresh == CorePlan(w, db) \ DOMAIN db IN
  IF c.rc \notin {0, 1} THEN {IF c.rc = 997 THEN "Hangs" ELSE "Crashes"}
  ELSE If(c.other, "Meddles") \cup If(~c.logdir \/ { c.envs[k].port : k \in DOMAIN c.envs } \subseteq Range(c.logged), "Logged") \cup
   (IF ~c.root \/ ~c.setup THEN If(c.rc # 0, "Allowed") \cup Inert(c, w, db)
    ELSE IF ~coll /\ c.arg \notin DOMAIN t THEN If(c.rc # 0, "Status") \cup Inert(c, w, db)
    ELSE IF c.dry THEN Inert(c, w, db) \cup If(c.rc = 0, "Status") \cup
       (IF coll THEN If(Range(c.said) = todo, "Said") \cup If(Range(c.obs) = Left(w, t, c.arg), "Obsolete") ELSE {})
    ELSE IF ~CoreOk(w, db) THEN If(c.rc # 0, "Status") \cup Inert(c, w, db)
    ELSE IF coll THEN If(c.rc # 0 \/ Range(c.said) = todo, "Said") \cup If(Range(c.obs) = Left(w, t, c.arg), "Obsolete")
       \cup (IF todo = {} THEN If(c.envs = <<>>, "BuiltOther") \cup Finish(c, Cleared(w, t, c.arg), t, core, FALSE, fresh)
             ELSE Calls(c, Cleared(w, t, c.arg), t, core, todo, 1, fresh))
        ELSE Calls(c, w, t, core, todo, 1, fresh))

VARIABLE i
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1 /\ PrintT("C " \o ToJson([k |-> i', bad |-> SetToSeq(Bad(Cases[i']))]))
Spec == Init /\ [][Next]_i
===============================================================================
