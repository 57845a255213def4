------------------------------ MODULE PkgDbTrace ------------------------------
(* Trace validation: behaviours recorded from the real tools are checked,    *)
(* step by step, against PkgDb.  For every step TLC prints one line: which   *)
(* property predicates fail on it, in which respects it is not the step the  *)
(* specification allows, and which classes of situation it belongs to.       *)
EXTENDS PkgDb, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i

Before(T, k) == IF k = 1 THEN T.init ELSE T.steps[k - 1].post

Bad(s, op, rc, t) ==
  LET r == Apply(s, op)
      u == r.st
  IN {n \in PropNames : ~Prop(n, s, op, rc, t)}
     \cup (IF r.rc # (IF rc = 0 THEN 0 ELSE 1) THEN {"~rc"} ELSE {})
     \cup (IF rc < 0 \/ rc > 127 THEN {"~crash"} ELSE {})
     \cup (IF NormDb(u.db) # NormDb(t.db) THEN {"~db"} ELSE {})
     \cup (IF View(u.fs) # View(t.fs) THEN {"~fs"} ELSE {})
     \cup (IF u.log # t.log THEN {"~log"} ELSE {})
     \cup (IF r.rc = 0 /\ Range(u.trig) # Range(t.trig) THEN {"~trig"} ELSE {})

FsDiff(s, op, t) ==
  LET a == View(Apply(s, op).st.fs)  b == View(t.fs)
  IN {p \in DOMAIN a \cup DOMAIN b :
        \/ p \notin DOMAIN a \/ p \notin DOMAIN b \/ a[p] # b[p]}

Init == tr \in 1..Len(Traces) /\ i = 0

Next ==
  LET T == Traces[tr] IN
  /\ i < Len(T.steps)
  /\ i' = i + 1 /\ tr' = tr
  /\ LET x == T.steps[i + 1]
         s == Before(T, i + 1)
         bad == Bad(s, x.op, x.rc, x.post)
     IN PrintT("STEP " \o ToJson([tr |-> tr, i |-> i + 1, bad |-> bad,
                  diff |-> IF "~fs" \in bad THEN FsDiff(s, x.op, x.post) ELSE {},
                  cls |-> Classes(s, x.op)]))

Spec == Init /\ [][Next]_<<tr, i>>
=============================================================================
