INIT Init
NEXT Next
INVARIANT Below Silent Blame
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 3
