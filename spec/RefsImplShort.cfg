CONSTANTS Threads = {"t1"}
          Names = {1, 2, 3, 4, 5, 6, 7, 8}
          Objects = {1}
          Ops = 1
          Updates = 0
          Bound = 3
          Chains = TRUE
          Linking = FALSE
          Memo = FALSE
SPECIFICATION Spec
INVARIANTS NotStuck Exact NeverOther Deep
CHECK_DEADLOCK FALSE
