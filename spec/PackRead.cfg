SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {t1, t2}
  N = 3
  Reads = 1
  Faults = 1
  Holds = TRUE
  Key = "own"
  Stores = "result"
  Forgets = TRUE
  Checks = TRUE
INVARIANTS Exact Mutex NoDeadlock CacheRight
