CONSTANTS MaxLen = 4 MaxOps = 2 Interrupts = 1 Bug = "excess"
SPECIFICATION Spec
INVARIANTS Same InBounds
CHECK_DEADLOCK FALSE
