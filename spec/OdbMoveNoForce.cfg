CONSTANTS Threads = {"t1"}
          Objects = {"a"}
          Packs = {"p", "q"}
          Ops = 1
          Budget = 4
          Kinds = {"read"}
          Rename = TRUE
          OwnTemp = TRUE
          Force = FALSE
          SkipMissing = TRUE
          Passes = 2
          CheckTarget = TRUE
          Remake = TRUE
SPECIFICATION Spec
INVARIANTS Allowed NoPartial
PROPERTIES Refines Returns
CHECK_DEADLOCK FALSE
