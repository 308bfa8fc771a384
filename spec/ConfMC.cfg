INIT Init
NEXT Next
INVARIANT Exact Complete
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 4
  MaxL = 2
  Workers = {1, 2}
