CONSTANTS Packs = {p1, p2, p3} Bug = "loose"
SPECIFICATION Spec
INVARIANTS Honest Recovers Type
CHECK_DEADLOCK FALSE
