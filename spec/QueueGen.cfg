INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
