INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 5
  MaxStmts = 16
  Opt = FALSE
