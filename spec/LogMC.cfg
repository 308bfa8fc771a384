INIT Init
NEXT Next
INVARIANT Intact Ordered Once Limit Complete
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2, 3}
  Per = 2
  MaxMax = 7
