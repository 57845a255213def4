SPECIFICATION Spec
CONSTANTS N = {"a", "b"}
 Builds = {1, 2}
 Bases = {"cli"}
 Groups = {}
 Pair = FALSE
 Shares <- ShareX
CHECK_DEADLOCK FALSE
