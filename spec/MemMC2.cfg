INIT Init
NEXT Next
CONSTANT Part = 2
INVARIANT Contained
PROPERTY Local
CHECK_DEADLOCK FALSE
