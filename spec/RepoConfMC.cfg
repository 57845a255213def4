SPECIFICATION Spec
CONSTANTS MAX = 2
INVARIANTS Same Urls Own
CHECK_DEADLOCK FALSE
