INIT Init
NEXT Next
INVARIANT Exact
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2}
  Groups = 2
  Fns = {"f", "g"}
  Len_ = 2
