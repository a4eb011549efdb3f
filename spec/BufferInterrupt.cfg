CONSTANTS MaxLen = 4 MaxOps = 2 Interrupts = 1 Bug = "interrupt"
SPECIFICATION Spec
INVARIANTS Same InBounds
CHECK_DEADLOCK FALSE
