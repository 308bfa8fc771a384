INIT Init
NEXT Next
INVARIANT InRange
INVARIANT Periodic
INVARIANT Interior
INVARIANT Centre
INVARIANT Outside
INVARIANT Ramp
CHECK_DEADLOCK FALSE
