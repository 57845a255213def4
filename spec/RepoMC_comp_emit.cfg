SPECIFICATION Spec
CONSTANTS N = {"a", "b", "a.g"}
 Builds = {1}
 Bases = {"cli"}
 Groups = {"g"}
 Pair = FALSE
 Shares <- NoShares
INVARIANT Emit
CHECK_DEADLOCK FALSE
