CONSTANTS Threads = {"t1"}
          Names = {"HEAD", "a"}
          Objects = {1, 2}
          Ops = 1
          Updates = 2
          Bound = 5
          Chains = FALSE
          Linking = TRUE
          Memo = FALSE
SPECIFICATION Fair
INVARIANTS NotStuck Exact NeverOther Deep
CHECK_DEADLOCK FALSE
PROPERTIES Returns
