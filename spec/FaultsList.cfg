CONSTANTS Packs = {p1, p2, p3} Bug = "list"
SPECIFICATION Spec
INVARIANTS Honest Recovers Type
CHECK_DEADLOCK FALSE
