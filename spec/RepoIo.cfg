SPECIFICATION Spec
CONSTANTS P = {p, q}
 C = {c, d}
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
