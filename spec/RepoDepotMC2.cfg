SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 Colls = {"cli", "gui"}
CHECK_DEADLOCK FALSE
