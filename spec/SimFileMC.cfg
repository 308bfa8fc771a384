INIT Init
NEXT Next
INVARIANTS Same Sized Uneven Views
CHECK_DEADLOCK FALSE
CONSTANTS
  Lo = 6
  Hi = 6
  MaxN = 3
