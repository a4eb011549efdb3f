CONSTANTS MaxLen = 3 MaxOps = 3 Interrupts = 2 Bug = "none"
SPECIFICATION Spec
INVARIANTS Same InBounds
PROPERTY Ends1
CHECK_DEADLOCK FALSE
