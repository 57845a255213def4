SPECIFICATION Spec
INVARIANTS Laws Ends
CONSTANTS N = {"a", "b"} Lock = TRUE
CHECK_DEADLOCK FALSE
