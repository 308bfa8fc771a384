INIT TInit
NEXT TNext
INVARIANT Report
INVARIANT OutcomeDetermined
CHECK_DEADLOCK FALSE
CONSTANTS
  NQ = 4
  NU = 4
