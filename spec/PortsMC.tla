------------------------------ MODULE PortsMC ------------------------------
(* The level computation in rounds, over every graph of the given size:      *)
(* in each round the ports whose dependencies all have a level get theirs.   *)
EXTENDS Ports, TLC
CONSTANTS N, Extra, Self, Rep     \* ports, names that are no ports, self dependencies, written twice
VARIABLES t, level, open, round, listed, fin
vars == <<t, level, open, round, listed, fin>>
Dep(x) == IF Rep THEN { [full |-> x, port |-> x], [full |-> x \o ".devel", port |-> x] } ELSE { [full |-> x, port |-> x] }
Trees == [ N -> SUBSET (N \cup Extra) ]
Init == /\ \E g \in Trees : /\ Self \/ \A p \in N : p \notin g[p]
                            /\ t = [ p \in N |-> [coll |-> "c", ver |-> "1", rel |-> 1, deps |-> UNION { Dep(x) : x \in g[p] }] ]
        \* one per written dependency on another port
        /\ open = [ p \in N |-> Cardinality({ d \in t[p].deps : d.port # p /\ d.port \in N }) ]
        /\ level = [ p \in N |-> -1 ] /\ round = 0 /\ listed = <<>> /\ fin = FALSE
Ready == { p \in N : open[p] = 0 /\ level[p] = -1 }
RECURSIVE Append2(_, _)
Append2(s, S) == IF S = {} THEN s ELSE LET x == CHOOSE x \in S : TRUE IN Append2(Append(s, x), S \ {x})
Round == /\ ~fin /\ Ready # {}
         /\ level' = [ p \in N |-> IF p \in Ready THEN round ELSE level[p] ]
         /\ open' = [ p \in N |-> open[p] - Cardinality({ d \in t[p].deps : d.port # p /\ d.port \in Ready }) ]
         /\ listed' = Append2(listed, Ready)
         /\ round' = round + 1 /\ UNCHANGED <<t, fin>>
Stop == ~fin /\ Ready = {} /\ fin' = TRUE /\ UNCHANGED <<t, level, open, round, listed>>
Next == Round \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bounded == round <= Cardinality(N) + 1
Ends == <>fin
Exact == fin => \A p \in N : IF Cyclic(t, p) THEN level[p] = -1 ELSE level[p] = Level(t, p)
Above == fin => \A p \in N : level[p] >= 0 => \A q \in Known(t, p) : level[q] < level[p]
Complete == fin /\ Acyclic(t) => Range(listed) = N /\ Once(listed) /\ Ordered(t, listed)
\* listing what a port needs by level puts everything after what it needs
Sub(p) == SelectSeq(listed, LAMBDA q : q \in Closure(t, p))
Depends == fin => \A p \in N : ~Cyclic(t, p) => Range(Sub(p)) = Closure(t, p) /\ Ordered(t, Sub(p)) /\ Sub(p)[Len(Sub(p))] = p
\* what needs p and what p needs are the same relation
Dual == \A p, q \in N : (q \in Dependents(t, p)) <=> (p \in Known(t, q))
=============================================================================
