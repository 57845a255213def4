SPECIFICATION Spec
INVARIANTS Laws Client
CONSTANTS Colls = {"cli", "gui"} Rounds = 1
CHECK_DEADLOCK FALSE
