CONSTANT Max = 4
SPECIFICATION Spec
INVARIANTS Progress Emit
CHECK_DEADLOCK FALSE
