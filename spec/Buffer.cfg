CONSTANTS MaxLen = 4 MaxOps = 2 Interrupts = 1 Bug = "none"
SPECIFICATION Spec
INVARIANTS Same InBounds
PROPERTY Ends1
CHECK_DEADLOCK FALSE
