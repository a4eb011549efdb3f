CONSTANTS Threads = {"t1", "t2"}
          Objects = {"a", "b"}
          Packs = {"p", "q"}
          Ops = 2
          Budget = 4
          Kinds = {"read", "write"}
          Rename = TRUE
          OwnTemp = TRUE
          Force = TRUE
          SkipMissing = TRUE
          Passes = 2
          CheckTarget = TRUE
          Remake = TRUE
SPECIFICATION GSpec
INVARIANTS Emit Allowed NoPartial
CHECK_DEADLOCK FALSE
