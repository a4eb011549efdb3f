SPECIFICATION Spec
INVARIANTS NotAbove NoClimb Emit
CHECK_DEADLOCK FALSE
