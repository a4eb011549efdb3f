CONSTANTS Threads = {"t1"}
          Names = {"HEAD", "a", "b"}
          Objects = {1, 2}
          Ops = 2
          Updates = 1
          Bound = 5
          Chains = FALSE
          Linking = FALSE
          Memo = TRUE
SPECIFICATION Spec
INVARIANTS NotStuck Exact NeverOther Deep
CHECK_DEADLOCK FALSE
