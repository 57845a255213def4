---------------------------- MODULE RepoConfTrace ----------------------------
(* Judges what `cards config' shows for recorded files: [ls, vs, arch, rc, out] *)
EXTENDS RepoConf, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
\* the machine type need not be known where nothing is configured
Nothing(c) == \A s \in { c.ls[i] : i \in DOMAIN c.ls } \cup { c.vs[i] : i \in DOMAIN c.vs } : Setting(s).key = ""
Bad(c) == IF c.rc # 0 THEN <<"ConfigFailed">> ELSE
  IF c.out = Shown(Meaning(c.ls, c.vs), c.arch) \/ (Nothing(c) /\ c.out = Shown(None, "")) THEN <<>> ELSE <<"ConfigMisread">>
VARIABLE i
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1 /\ PrintT("C " \o ToJson([k |-> i', bad |-> Bad(Cases[i'])]))
Spec == Init /\ [][Next]_i
=============================================================================
