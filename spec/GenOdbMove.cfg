CONSTANTS Threads = {"t1"}
          Objects = {"a"}
          Packs = {"p", "q"}
          Ops = 2
          Budget = 6
          Kinds = {"read"}
          Rename = TRUE
          OwnTemp = TRUE
          Force = TRUE
          SkipMissing = TRUE
          Passes = 2
          CheckTarget = TRUE
          Remake = TRUE
SPECIFICATION GSpec
INVARIANTS Emit Allowed NoPartial
CHECK_DEADLOCK FALSE
