CONSTANTS Threads = {"t1"}
          Names <- MCNames
          Dirs <- MCDirs
          Updates = 1
          Faults = 1
          Deep = TRUE
          Gone = "error"
          Locks = FALSE
          Skip = FALSE
SPECIFICATION Spec
INVARIANTS Allowed
CHECK_DEADLOCK FALSE
