------------------------------- MODULE PkgDbGen -------------------------------
(* Behaviour generation: TLC simulates PkgDb over a universe read from JSON  *)
(* (archives, rules files, administrator actions) and prints every behaviour *)
(* as a history of operations, which the drivers replay in the real tools.   *)
EXTENDS PkgDb, Json, IOUtils, Randomization, Integers

U == JsonDeserialize(IOEnv.UNIVERSE)
Depth == U.depth

VARIABLES st, hist, uni

Flags == {<<FALSE, FALSE, FALSE>>, <<FALSE, FALSE, FALSE>>, <<TRUE, FALSE, FALSE>>,
          <<FALSE, TRUE, FALSE>>, <<TRUE, TRUE, FALSE>>, <<FALSE, FALSE, TRUE>>,
          <<TRUE, FALSE, TRUE>>}
AddOps(V) == {[cmd |-> "pkgadd", arc |-> V.archives[a], u |-> f[1], f |-> f[2], i |-> f[3], how |-> "ok",
               root |-> V.root, comp |-> V.comps[1 + ((a + Len(hist)) % Len(V.comps))]]
              : a \in DOMAIN V.archives, f \in Flags}
Hows == {"nonroot", "badopt", "extra", "noarg"}
HowAdds(V) == {[op EXCEPT !.how = h] : op \in RandomSubset(1, AddOps(V)), h \in RandomSubset(1, Hows)}
RmOps(V)  == {[cmd |-> "pkgrm", name |-> n, how |-> "ok", root |-> V.root] : n \in Range(V.names)}
HowRms(V) == {[op EXCEPT !.how = h] : op \in RandomSubset(1, RmOps(V)), h \in RandomSubset(1, Hows)}
UserOps(V) == Range(V.user)

\* one operation: mostly accepted ones, and among the others a few
Good(S) == {op \in S : Apply(st, op).rc = 0}
Choice ==
  LET V == U.unis[uni]
      T(S, n) == IF S = {} THEN {} ELSE RandomSubset(IF Cardinality(S) < n THEN Cardinality(S) ELSE n, S)
      A == T(AddOps(V), 20)  G == Good(A)  B == A \ G
      R == RmOps(V)   H == {op \in R : op.name \in Names(st)}
      X == {op \in G : op.f}  Y == {op \in G : op.u /\ ~op.f}  Z == G \ (X \cup Y)
  IN T(Z, 4) \cup T(Y, 4) \cup T(X, 2) \cup T(B, 2) \cup T(H, 2) \cup T(R \ H, 1) \cup T(UserOps(V), 3)
     \cup (IF V.hows THEN T(HowAdds(V), 1) \cup T(HowRms(V), 1) ELSE {})

Init == /\ uni \in DOMAIN U.unis
        /\ st = [db |-> [x \in {} |-> 0], fs |-> U.unis[uni].fs, log |-> <<>>, rules |-> U.unis[uni].rules, trig |-> <<>>]
        /\ hist = <<>>
Step == /\ uni # 0 /\ Len(hist) < Depth
        /\ \E op \in Choice :
             /\ st' = Apply(st, op).st
             /\ hist' = Append(hist, op)
             /\ uni' = uni
\* the end of a behaviour has one successor, so each behaviour is printed once
Done == /\ Len(hist) = Depth /\ uni # 0
        /\ PrintT("HIST " \o ToJson([uni |-> uni, ops |-> hist]))
        /\ uni' = 0 /\ hist' = <<>> /\ st' = 0
Next == Step \/ Done
Spec == Init /\ [][Next]_<<st, hist, uni>>
=============================================================================
