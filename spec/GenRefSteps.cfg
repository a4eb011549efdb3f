CONSTANTS Threads = {"t1"}
          Names = {1, 2, 3, 4}
          Objects = {1, 2}
          Ops = 2
          Updates = 4
          Bound = 5
          Chains = FALSE
          Linking = FALSE
          Memo = FALSE
SPECIFICATION GSpec
INVARIANTS NotStuck NeverOther Deep Emit
CHECK_DEADLOCK FALSE
