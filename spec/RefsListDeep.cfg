CONSTANTS Threads = {"t1"}
          Names <- MCNames
          Dirs <- MCDirs
          Updates = 3
          Faults = 1
          Deep = TRUE
          Gone = "empty"
          Locks = FALSE
          Skip = FALSE
SPECIFICATION Spec
INVARIANTS Allowed
CHECK_DEADLOCK FALSE
