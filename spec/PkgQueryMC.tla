----------------------------- MODULE PkgQueryMC -----------------------------
(* Every database of two packages over a few files, aliases and marks: the    *)
(* answers fit together (Laws).                                               *)
EXTENDS PkgQuery
CONSTANT Files
VARIABLE db
Rec(n, o, F, A, d, r) ==
  [meta |-> SetToSeq({"N" \o n, "V" \o (IF d THEN "1" ELSE "2"), "cbase", "B16000000" \o (IF d THEN "00" ELSE "01")}
                       \cup {"A" \o a : a \in A} \cup (IF r THEN {"R" \o o \o "1600000000", "r7"} ELSE {})),
   auto |-> d, files |-> SetToSeq(F), alias |-> SetToSeq(A), prer |-> "", postr |-> "", probe |-> ""]
Recs(n, o) == {Rec(n, o, F, A, d, r) : F \in SUBSET Files, A \in SUBSET {"x", o}, d \in BOOLEAN, r \in BOOLEAN}
Init == db = [x \in {} |-> 0]
Put1(n, o) == /\ n \notin DOMAIN db
              /\ \E r \in Recs(n, o) : db' = db @@ (n :> r)
Next == Put1("pa", "pb") \/ Put1("pb", "pa")
Spec == Init /\ [][Next]_db
Fit == Laws(db)
=============================================================================
