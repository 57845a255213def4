SPECIFICATION Spec
CONSTANTS N = {"a", "b"}
 Builds = {1, 2}
 Bases = {"cli"}
 Groups = {}
 Pair = FALSE
 Shares <- ShareX
INVARIANT Emit
CHECK_DEADLOCK FALSE
