SPECIFICATION Spec
INVARIANTS Erasable Judged Quiet
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxCalls = 2
  Family = 0
