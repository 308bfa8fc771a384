INIT Init
NEXT Next
INVARIANT OneAtATime
CHECK_DEADLOCK FALSE
CONSTANTS
  LimbBits = 2
  Items = {1, 2}
  Words = 2
  Mutexes = 1
  Len_ = 1
  Locks = TRUE
