INIT Init
NEXT Next
INVARIANT Agree
CHECK_DEADLOCK FALSE
CONSTANT Full = FALSE
