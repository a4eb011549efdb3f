CONSTANT Max = 45
SPECIFICATION Spec
INVARIANTS Real Emit
CHECK_DEADLOCK FALSE
