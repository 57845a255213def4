SPECIFICATION CSpec
CONSTANTS Scope = "own"
          Dump = FALSE
          MaxOps = 1
          Procs = 2
          UseLock = FALSE
VIEW CView
INVARIANTS  Inv_Serial
CHECK_DEADLOCK FALSE
