SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {t1, t2}
  N = 2
  Reads = 1
  Faults = 0
  Holds = TRUE
  Key = "own"
  Stores = "result"
  Forgets = FALSE
  Checks = TRUE
INVARIANTS Exact Mutex NoDeadlock 
