CONSTANT Max = 3
SPECIFICATION Spec
INVARIANTS Progress Emit
CHECK_DEADLOCK FALSE
