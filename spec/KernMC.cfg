INIT MInit
NEXT MNext
INVARIANTS WellTyped Ends Same
CHECK_DEADLOCK FALSE
CONSTANTS
  LimbBits = 8
  NItems = 2
  Depth = 2
  Progs = 60
