CONSTANT Skew = 1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  Faithful
  Emit
