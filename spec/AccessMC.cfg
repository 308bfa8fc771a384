INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS Size = 4
 MaxSteps = 3
