SPECIFICATION Spec
CONSTANTS Scope = "conf"
          Dump = FALSE
VIEW StView
INVARIANTS Inv_OneOwner Inv_NoRejectedOwned Inv_RecordsNamed
CHECK_DEADLOCK FALSE
