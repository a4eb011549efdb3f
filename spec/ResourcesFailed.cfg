CONSTANTS Packs = {p1, p2, p3} Objects = {o1, o2} Bug = "failed" MaxFiles = 9
SPECIFICATION Spec
INVARIANTS Few Once Released
PROPERTY Settled
CONSTRAINT Limit
CHECK_DEADLOCK FALSE
