CONSTANT Skew = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  Faithful
  Emit
