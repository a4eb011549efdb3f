CONSTANT N = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  Resolves
  Emit
