CONSTANTS Entries = {"a", "b", "c"} Bug = "none"
SPECIFICATION Spec
INVARIANTS Proportion Short Right Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
