CONSTANTS Threads = {"t1", "t2"}
          Objects = {"a"}
          Packs = {"p"}
          Ops = 1
          Budget = 1
          Kinds = {"read", "write"}
          Rename = TRUE
          OwnTemp = TRUE
          Force = TRUE
          SkipMissing = TRUE
          Passes = 2
          CheckTarget = TRUE
          Remake = FALSE
SPECIFICATION Spec
INVARIANTS Allowed NoPartial
PROPERTIES Refines Returns
CHECK_DEADLOCK FALSE
