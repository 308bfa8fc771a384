INIT Init
NEXT Next
CONSTANT Part = 1
INVARIANT BoundsAgree
INVARIANT OverlapAgrees
INVARIANT Distinct
CHECK_DEADLOCK FALSE
