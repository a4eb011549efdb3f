SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {t1, t2}
  N = 2
  Reads = 2
  Faults = 0
  Holds = TRUE
  Key = "own"
  Stores = "delta"
  Forgets = TRUE
  Checks = TRUE
INVARIANTS Exact Mutex NoDeadlock 
