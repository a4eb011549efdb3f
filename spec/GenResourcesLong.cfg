CONSTANTS Whole = TRUE Longest = 6
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
