INIT GInit
NEXT GNext
INVARIANT NoLeak
INVARIANT Emit
CHECK_DEADLOCK FALSE
