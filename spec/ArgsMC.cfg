SPECIFICATION Spec
CONSTANTS MaxK = 2
 MaxSteps = 7
INVARIANT Faithful
CHECK_DEADLOCK FALSE
