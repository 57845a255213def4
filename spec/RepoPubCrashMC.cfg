SPECIFICATION Spec
INVARIANTS Laws Client
CONSTANTS Colls = {"cli"} Rounds = 3
CHECK_DEADLOCK FALSE
