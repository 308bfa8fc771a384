SPECIFICATION Spec
INVARIANTS Same Once Reason
PROPERTIES Arrive Quiet
CHECK_DEADLOCK FALSE
CONSTANT MaxCmds = 4
