SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  Faithful
  Rejected
  Emit
