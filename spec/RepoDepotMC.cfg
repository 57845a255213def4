SPECIFICATION Spec
CONSTANTS Names = {"a"}
 Colls = {"base", "cli", "gui"}
CHECK_DEADLOCK FALSE
