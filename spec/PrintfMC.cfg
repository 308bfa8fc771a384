INIT Init
NEXT Next
INVARIANTS FixedRight Widths Reads Scis Short Mono
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxM = 4
  MaxP = 3
  Lo = 6
  Hi = 3
