INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRuns = 4
