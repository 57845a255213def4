--------------------------- MODULE PkgQueryTrace ---------------------------
(* Answers recorded from pkginfo over recorded database states.             *)
EXTENDS PkgQuery, Json

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE k

\* sets arrive as sequences
Norm(q, x) ==
  CASE q.k \in {"details", "archive", "installed", "owner", "footprint"} /\ "raw" \in DOMAIN x -> x
    [] q.k = "details" -> [y \in DOMAIN x \ {"size", "unit"} |-> IF y \in {"alias", "categories", "sets", "deps"} THEN Range(x[y]) ELSE x[y]]
    [] q.k = "archive" -> [x EXCEPT !.deps = Range(@)]
    [] OTHER -> x

Bad(c, r) ==
  LET q == r.q
      got == [rc |-> IF r.rc = 0 THEN 0 ELSE 1, lines |-> IF r.rc = 0 THEN {Norm(q, x) : x \in Range(r.lines)} ELSE {}]
  IN (IF got \notin Answers(c.db, q) THEN {"Answer"} ELSE {})
     \cup (IF r.rc = 0 /\ Cardinality(Range(r.lines)) # Len(r.lines) THEN {"Repeated"} ELSE {})
     \cup (IF r.rc = 0 /\ q.k = "details" /\ Len(r.lines) = 1 /\ "unit" \in DOMAIN r.lines[1]
             /\ \A n \in Carriers(c.db, q.arg) : ~SizeOk(c.db[n].meta, r.lines[1].unit, r.lines[1].size) THEN {"Size"} ELSE {})
     \cup (IF r.rc < 0 \/ r.rc > 127 THEN {"Crashed"} ELSE {})
     \cup (IF ~r.same THEN {"Changed"} ELSE {})

Init == k \in DOMAIN Cases
Next == /\ k > 0 /\ k' = 0
        /\ \A j \in DOMAIN Cases[k].qs :
             PrintT("Q " \o ToJson([k |-> k, j |-> j, bad |-> Bad(Cases[k], Cases[k].qs[j])]))
Spec == Init /\ [][Next]_k
=============================================================================
