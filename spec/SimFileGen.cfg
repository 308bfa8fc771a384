INIT Init
NEXT Next
INVARIANTS Emit AllValid
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxArgs = 5
  MaxElems = 9
