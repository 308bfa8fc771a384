INIT MInit
NEXT MNext
INVARIANTS Content LastOnly Kept OneName Split Vars
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxProgs = 3
  MaxKerns = 2
  MaxOps = 6
