CONSTANTS Threads = {"t1"}
          Names <- MCNames
          Dirs <- MCDirs
          Updates = 0
          Faults = 1
          Deep = FALSE
          Gone = "empty"
          Locks = FALSE
          Skip = FALSE
SPECIFICATION Spec
INVARIANTS Allowed
CHECK_DEADLOCK FALSE
