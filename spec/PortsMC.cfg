SPECIFICATION Spec
CONSTANTS N = {"a", "b", "c"}
 Extra = {"u"}
 Self = TRUE
 Rep = TRUE
INVARIANTS Bounded Exact Above Complete Depends Dual
PROPERTY Ends
CHECK_DEADLOCK FALSE
