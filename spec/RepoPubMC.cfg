SPECIFICATION Spec
CONSTANTS FN = {"f", "g"}
 ID = {"1", "2", "3"}
 KEY = {"k", "l"}
INVARIANTS Faithful Exact Fresh Client Sets NoLeak
CHECK_DEADLOCK FALSE
