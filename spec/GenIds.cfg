SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  Consistent
  Emit
