SPECIFICATION Spec
CONSTANTS N = {"a", "b"}
 Builds = {1, 2}
 Bases = {"cli", "base"}
 Groups = {}
 Pair = FALSE
 Shares <- NoShares
CHECK_DEADLOCK FALSE
