INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS
  LimbBits = 3
  Third = {0, 1, 31, 32, 33, 63}
