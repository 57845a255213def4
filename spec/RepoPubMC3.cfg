SPECIFICATION Spec
CONSTANTS FN = {"f", "g", "h"}
 ID = {"1", "2"}
 KEY = {"k", "l"}
INVARIANTS Faithful Exact Fresh Client Sets NoLeak
CHECK_DEADLOCK FALSE
