------------------------------- MODULE Ports -------------------------------
(* The port tree of `cards level`, `depends`, `deptree` and `dependent'.      *)
(* A tree t: port name -> [coll, deps, ver, rel] where deps is a set of       *)
(* records [full, port]: the dependency as written and the port it means      *)
(* ("glib.devel" is a part of the port "glib").                               *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE MaxOf(_)
MaxOf(S) == IF S = {} THEN -1 ELSE LET x == CHOOSE x \in S : TRUE IN LET m == MaxOf(S \ {x}) IN IF x > m THEN x ELSE m

Needs(t, p) == { d.port : d \in t[p].deps } \ {p}           \* every name, known or not
Known(t, p) == Needs(t, p) \cap DOMAIN t
BadDeps(t) == UNION { { <<p, d.port>> : d \in { d \in t[p].deps : d.port \notin DOMAIN t } } : p \in DOMAIN t }

\* the levels, level by level; what depends on a cycle never gets one
RECURSIVE Peel(_, _, _)
Peel(t, done, l) == LET S == { p \in DOMAIN t \ DOMAIN done : Known(t, p) \subseteq DOMAIN done } IN
  IF S = {} THEN done ELSE Peel(t, [ p \in S \cup DOMAIN done |-> IF p \in S THEN l ELSE done[p] ], l + 1)
Levels(t) == Peel(t, <<>>, 0)

RECURSIVE Grow(_, _)
Grow(t, S) == LET T == S \cup UNION { Known(t, p) : p \in S } IN IF T = S THEN S ELSE Grow(t, T)
\* everything needed to build p, p included
Closure(t, p) == Grow(t, {p})
\* everything needed by p, p only if it needs itself through others
Below(t, p) == Grow(t, Known(t, p))
Cyclic(t, p) == \E q \in Closure(t, p) : q \in Below(t, q)
Acyclic(t) == \A p \in DOMAIN t : ~Cyclic(t, p)

\* the level of a port that does not depend on a cycle
RECURSIVE Level(_, _)
Level(t, p) == 1 + MaxOf({ Level(t, q) : q \in Known(t, p) })

\* the ports that name p as something they need
Dependents(t, p) == { q \in DOMAIN t : p \in Needs(t, q) }

Range(s) == { s[i] : i \in DOMAIN s }
\* every element of the sequence of names stands after what it needs
Ordered(t, s) == \A i, j \in DOMAIN s : (s[i] \in DOMAIN t /\ s[j] \in Known(t, s[i])) => j < i
Once(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
=============================================================================
