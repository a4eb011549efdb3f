CONSTANTS Packs = {p1, p2, p3} Bug = "none"
SPECIFICATION Spec
INVARIANTS Honest Recovers Type
PROPERTY Returns
CHECK_DEADLOCK FALSE
