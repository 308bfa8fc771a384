INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  LimbBits = 8
  NCases = 6
  Seed = 1
  Sample = 1
  Exhaust = FALSE
