CONSTANT Max = 3
SPECIFICATION Spec
INVARIANTS OnlyUp Emit
CHECK_DEADLOCK FALSE
