CONSTANTS
    N = 2
    Branches = {1, 2}
    Bug = "once"
SPECIFICATION Spec
INVARIANTS Reachable Current
CHECK_DEADLOCK FALSE
