INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  LimbBits = 8
  NItems = 2
  Depth = 3
