CONSTANTS Threads = {1}
          Objects = {1, 2}
          Packs = {1, 2}
          Length = 4
SPECIFICATION HSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
