CONSTANTS Entries = {"a", "b", "c"} Bug = "loops"
SPECIFICATION Spec
INVARIANTS Proportion Short Right
CHECK_DEADLOCK FALSE
