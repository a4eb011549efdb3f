CONSTANTS Entries = {"a", "b", "c"} Bug = "trust"
SPECIFICATION Spec
INVARIANTS Proportion Short Right
CHECK_DEADLOCK FALSE
