SPECIFICATION CSpec
CONSTANTS Scope = "confq"
          Dump = FALSE
          MaxOps = 2
VIEW CView
INVARIANTS Inv_Crash Inv_Recover Inv_End
CHECK_DEADLOCK FALSE
