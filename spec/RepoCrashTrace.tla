---------------------------- MODULE RepoCrashTrace ----------------------------
(* Judges what one real `cards' command left when it was killed, or when one  *)
(* of its system calls failed, and what the same command did afterwards.      *)
(* A case is [w, pre, op, want, runs]: want is where the undisturbed command  *)
(* ended. A run is [kind ("kill" or "fail"), rc, said, mid, plab, again, rep]: *)
(* mid what it left, rep the repeated command as a case for RepoTrace (again: *)
(* was there anything to repeat).                                             *)
EXTENDS RepoTrace, RepoCrash
VARIABLE j
Text(c, w, m) == [ y \in CName(w) |-> [ t \in Texts |->
   LET old == m.lab[y][t] = c.plab[y][t] new == y \in Urls(w) /\ m.lab[y][t] = w.rlab[y][t] IN
   IF old /\ new THEN "both" ELSE IF old THEN "old" ELSE IF new THEN "new" ELSE "other" ]]
\* the files a package may have, by its records
Mine(w, k, db, m, p) == (IF p \in DOMAIN db THEN db[p].share ELSE {}) \cup (IF p \in k.put THEN Offer(k.v, p).share ELSE {})
Fits(w, k, db, t, m, p) ==
  IF p \notin DOMAIN t THEN p \notin DOMAIN m.inst /\ Mine(w, k, db, m, p) \cap DOMAIN m.sh = {}
  ELSE /\ p \in DOMAIN m.inst /\ m.inst[p] = t[p].id
       /\ \A x \in t[p].share : x \in DOMAIN m.sh /\ m.sh[x] = t[p].id
       /\ (Mine(w, k, db, m, p) \ t[p].share) \cap DOMAIN m.sh = {}
Mid(c, w, k, db, m) ==
  LET t == Db(m.db) all == DOMAIN t \cup DOMAIN m.inst \cup DOMAIN db \cup k.put IN
  [db |-> t, txt |-> Text(c, w, m), loc |-> m.loc, bad |-> { p \in all : ~Fits(w, k, db, t, m, p) }]
\* the marks of companions nobody asked for are open
SameDb(k, a, b) == /\ DOMAIN a = DOMAIN b /\ \A p \in DOMAIN a : a[p] = b[p] \/ (p \in k.free /\ Unmarked(a[p]) = Unmarked(b[p]))
RunBad(c, w, k, db, x) ==
  LET m == Mid(c, w, k, db, x.mid)
      laws == IF x.kind = "kill" THEN Crashed ELSE Crashed \ {"Transit"}
      left == Again(c.op, m.db)
      \* a companion that was under way, or what only it needs, may stay so: nothing names it now
      side == CASE c.op.k = "install" -> k.put \ Close(w, db, k.roots)
                [] c.op.k = "remove" -> { p \in DOMAIN db : \E g \in w.groups, q \in DOMAIN db : p = q \o "." \o g }
                [] OTHER -> {}
      lost == IF x.again THEN (m.bad \cap side) \ Touched(Work(World(x.rep.w), m.db, x.rep.op)) ELSE {}
      told == lost \cap DOMAIN Db(x.rep.post)
      spare == UNION { Mine(w, k, db, x.mid, p) : p \in lost }
      asof == Db(x.rep.post)
      again == IF lost = {} THEN x.rep ELSE
               [x.rep EXCEPT !.inst = [ p \in (DOMAIN @ \ lost) \cup told |-> IF p \in told THEN asof[p].id ELSE @[p] ],
                             !.sh = LET o(y) == { p \in told : y \in asof[p].share } IN
                                    [ y \in { z \in DOMAIN @ \cup spare : IF z \in spare THEN o(z) # {} ELSE TRUE } |-> IF o(y) # {} THEN asof[CHOOSE p \in o(y) : TRUE].id ELSE @[y] ]]
      \* what was done without complaint, is done
      judged == x.again /\ (x.kind = "kill" \/ x.rc # 0)
      rep == IF ~judged THEN {} ELSE (IF x.rep.rc # 0 THEN {"RepeatFailed"} ELSE {}) \cup Bad(again)
      \* companions come and go with what they belong to, which may be done with
      parts == w.groups # {} /\ (c.op.k \in {"install", "upgrade"} \/ (c.op.k = "remove" /\ ~(AllTargets(db, c.op.args) \subseteq DOMAIN m.db)))
      same == IF ~judged \/ parts \/ lost # {} THEN TRUE
              ELSE SameDb(k, Db(x.rep.post), Db(c.want.db)) /\ x.rep.inst = c.want.inst /\ x.rep.sh = c.want.sh IN
  { n \in laws : ~Between(n, w, db, k, m) }
  \cup If((left # <<>>) = x.again, "~again")
  \cup { "Repeat:" \o n : n \in rep } \cup If(same, "NotSameEnd")
  \* an error is reported, or did no harm
  \cup If(x.kind = "kill" \/ x.rc # 0 \/ x.said \/ (SameDb(k, m.db, Db(c.want.db)) /\ x.mid.inst = c.want.inst /\ x.mid.sh = c.want.sh /\ x.mid.lab = c.want.lab
                                                /\ (c.op.k = "purge" => x.mid.loc = c.want.loc)), "SilentlyWrong")
CInit == i = 1 /\ j = 0
CNext == /\ i <= Len(Cases)
         /\ LET c == Cases[i] w == World(c.w) db == Db(c.pre) k == TLCEval(Work(w, db, c.op)) IN
            IF j < Len(c.runs) THEN i' = i /\ j' = j + 1 /\ PrintT("C " \o ToJson([k |-> i, j |-> j', bad |-> SetToSeq(RunBad(c, w, k, db, c.runs[j']))]))
            ELSE i' = i + 1 /\ j' = 0
CSpec == CInit /\ [][CNext]_<<i, j>>
=============================================================================
