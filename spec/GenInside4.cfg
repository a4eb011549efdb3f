CONSTANT Max = 4
SPECIFICATION Spec
INVARIANTS OnlyUp Emit
CHECK_DEADLOCK FALSE
