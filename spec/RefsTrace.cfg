CONSTANTS Threads <- TThreads
          IsUnder <- TUnder
SPECIFICATION TSpec
POSTCONDITION Done
CHECK_DEADLOCK FALSE
