CONSTANT Together = 1
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
