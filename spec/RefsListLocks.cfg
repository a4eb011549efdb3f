CONSTANTS Threads = {"t1"}
          Names <- MCNames
          Dirs <- MCDirs
          Updates = 0
          Faults = 1
          Deep = TRUE
          Gone = "empty"
          Locks = TRUE
          Skip = FALSE
SPECIFICATION Spec
INVARIANTS Allowed
CHECK_DEADLOCK FALSE
