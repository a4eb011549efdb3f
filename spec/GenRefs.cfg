SPECIFICATION Spec
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
