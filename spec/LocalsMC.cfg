INIT Init
NEXT Next
INVARIANT Layout
CHECK_DEADLOCK FALSE
