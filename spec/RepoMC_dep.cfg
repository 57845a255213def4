SPECIFICATION Spec
CONSTANTS N = {"a", "b", "c"}
 Builds = {1}
 Bases = {"cli"}
 Groups = {}
 Pair = TRUE
 Shares <- NoShares
CHECK_DEADLOCK FALSE
