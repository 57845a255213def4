---------------------------- MODULE PkgConcTrace ----------------------------
(* Real commands that overlapped.  A case is one of                            *)
(*  [kind "runs", s, runs, final]       what several overlapping commands did  *)
(*  [kind "inside", op, other, rc, told, pre, post]  a command run while other  *)
(*                                      was stopped holding the lock            *)
(*  [kind "free", op, rc, s, post]      a command run while nobody holds it     *)
(*  [kind "same", s, post]              two disks that must not differ          *)
(*  [kind "calls", calls]               lock and change calls of one command    *)
EXTENDS PkgConc, Json
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE k

Run(x) == [x EXCEPT !.rc = IF @ = 0 THEN 0 ELSE 1, !.lines = Range(@)]
SameAll(a, b) == NormDb(a.db) = NormDb(b.db) /\ a.fs = b.fs /\ a.log = b.log
Crashed(rc) == rc < 0 \/ rc > 127

\* changes only between taking and releasing the exclusive lock
CallsOk(C) ==
  \A i \in DOMAIN C : C[i] = "M" =>
    \E a \in 1..(i - 1) : C[a] = "EX" /\ \A b \in a..i : C[b] # "UN"
ReadsOk(C) ==
  \A i \in DOMAIN C : C[i] = "R" =>
    \E a \in 1..(i - 1) : C[a] \in {"SH", "EX"} /\ \A b \in a..i : C[b] # "UN"

Bad(c) ==
  CASE c.kind = "runs" ->
         (IF Serial(c.s, [i \in DOMAIN c.runs |-> Run(c.runs[i])], c.final) THEN {} ELSE {"NotSerial"})
           \cup (IF \E i \in DOMAIN c.runs : Crashed(c.runs[i].rc) THEN {"Crashed"} ELSE {})
    [] c.kind = "inside" ->
         IF Reads(c.op) /\ Reads(c.other) THEN IF c.rc = 0 THEN {} ELSE {"ReaderExcluded"}
         ELSE (IF c.rc = 0 THEN {"NotExcluded"} ELSE {})
              \cup (IF Crashed(c.rc) THEN {"Crashed"} ELSE {})
              \cup (IF SameAll(c.pre, c.post) THEN {} ELSE {"ChangedWhileLocked"})
    [] c.kind = "free" ->
         LET r == Apply(c.s, c.op) IN
         (IF r.rc # (IF c.rc = 0 THEN 0 ELSE 1) THEN {"FreeButRefused"} ELSE {})
           \cup (IF SameDisk(r.st, c.post) THEN {} ELSE {"FreeButDifferent"})
    [] c.kind = "same" -> IF SameDisk(c.s, c.post) THEN {} ELSE {"Interrupted"}
    [] c.kind = "calls" -> (IF CallsOk(c.calls) THEN {} ELSE {"ChangeOutsideLock"})
                             \cup (IF c.reader /\ ~ReadsOk(c.calls) THEN {"ReadOutsideLock"} ELSE {})

Init == k \in DOMAIN Cases
Next == k > 0 /\ k' = 0 /\ PrintT("C " \o ToJson([k |-> k, bad |-> Bad(Cases[k])]))
Spec == Init /\ [][Next]_k
=============================================================================
