SPECIFICATION Spec
CONSTANTS N = {"a", "b", "c", "d"}
 Extra = {}
 Self = FALSE
 Rep = FALSE
INVARIANTS Bounded Exact Above Complete Depends Dual
PROPERTY Ends
CHECK_DEADLOCK FALSE
