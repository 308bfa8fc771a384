INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxCmds = 40
  MaxItems = 6
