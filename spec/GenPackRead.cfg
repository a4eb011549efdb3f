SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {"t1", "t2", "t3"}
  N = 4
  Reads = 2
  Faults = 1
  Holds = TRUE
  Key = "own"
  Stores = "result"
  Forgets = TRUE
  Checks = TRUE
INVARIANTS Exact Mutex CacheRight Emit
