SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {t1, t2}
  N = 2
  Reads = 1
  Faults = 0
  Holds = FALSE
  Key = "own"
  Stores = "result"
  Forgets = TRUE
  Checks = TRUE
INVARIANTS Exact Mutex NoDeadlock 
