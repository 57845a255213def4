--------------------------- MODULE RepoPubCrashTrace ---------------------------
(* Judges interrupted and failing runs of the real `cards repo'. A case is    *)
(*   [colls, old, want, runs]: the collections asked for, the texts (as       *)
(* labels) before and where the undisturbed command ends; a run is            *)
(*   [kind, rc, said, seen, arcs, rerc, again]: the texts it left, whether    *)
(* the archives and keys are as before, and how the repetition ended.         *)
EXTENDS RepoPubCrash, Json, TLC, TLCExt, IOUtils, SequencesExt
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, j
If(b, x) == IF b THEN {} ELSE {x}
RunBad(c, x) == LET S == ToSet(c.colls) IN
  { l \in PubLaws : ~PubBetween(l, S, c.old, c.want, x.seen, x.arcs) }
  \cup If(x.kind = "kill" \/ x.rc # 0 \/ x.said \/ x.seen = c.want, "SilentlyWrong")
  \cup If(x.rerc = 0, "RepeatFailed") \cup If(x.rerc # 0 \/ x.again = c.want, "NotSameEnd")
Init == i = 1 /\ j = 0
Next == /\ i <= Len(Cases)
        /\ LET c == Cases[i] IN
           IF j < Len(c.runs) THEN i' = i /\ j' = j + 1 /\ PrintT("C " \o ToJson([k |-> i, j |-> j', bad |-> SetToSeq(RunBad(c, c.runs[j']))]))
           ELSE i' = i + 1 /\ j' = 0
Spec == Init /\ [][Next]_<<i, j>>
=============================================================================
