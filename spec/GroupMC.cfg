INIT Init
NEXT Next
INVARIANT Same Held Terminates
CHECK_DEADLOCK FALSE
