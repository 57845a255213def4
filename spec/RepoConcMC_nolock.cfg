SPECIFICATION Spec
INVARIANTS Laws Ends
CONSTANTS N = {"a", "b"} Lock = FALSE
CHECK_DEADLOCK FALSE
