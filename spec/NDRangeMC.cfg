INIT Init
NEXT Next
INVARIANT Partition OnceEach Nested
CHECK_DEADLOCK FALSE
CONSTANT Step = FALSE
