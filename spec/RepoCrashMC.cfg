SPECIFICATION Spec
INVARIANTS Laws Ends
CONSTANTS N = {"a", "b"} Kinds = {"install", "upgrade", "remove"} Crashes = 1 Groups = {}
CHECK_DEADLOCK FALSE
