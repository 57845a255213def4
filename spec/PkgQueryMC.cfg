SPECIFICATION Spec
CONSTANT Files = {"e/", "e/a", "b"}
INVARIANT Fit
CHECK_DEADLOCK FALSE
