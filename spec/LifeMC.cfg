SPECIFICATION Spec
CONSTANTS MaxObjs = 5
 MaxRef = 2
INVARIANTS Counted ParentsAlive
PROPERTY Final
CHECK_DEADLOCK FALSE
