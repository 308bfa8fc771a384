INIT Init
NEXT Next
INVARIANTS Emit Content Kept
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 40
  MaxProgs = 9
  MaxKerns = 6
