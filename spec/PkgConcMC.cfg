SPECIFICATION CSpec
CONSTANTS Scope = "own"
          Dump = FALSE
          MaxOps = 1
          Procs = 2
          UseLock = TRUE
VIEW CView
INVARIANTS Inv_Exclusive Inv_Serial
CHECK_DEADLOCK FALSE
