SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {t1, t2}
  N = 2
  Reads = 2
  Faults = 0
  Holds = TRUE
  Key = "own"
  Stores = "result"
  Forgets = TRUE
  Checks = FALSE
INVARIANTS Exact Mutex NoDeadlock 
