SPECIFICATION Spec
CONSTANTS Scope = "own"
          Dump = FALSE
VIEW StView
INVARIANTS Inv_OneOwner Inv_NoRejectedOwned Inv_RecordsNamed
CHECK_DEADLOCK FALSE
