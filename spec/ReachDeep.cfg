CONSTANTS
    N = 2
    Branches = {1, 2, 3}
    Bug = "none"
SPECIFICATION Spec
INVARIANTS Reachable Current
CHECK_DEADLOCK FALSE
