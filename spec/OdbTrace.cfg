CONSTANTS Threads <- TThreads
          Objects <- TObjects
          Packs <- TPacks
SPECIFICATION TSpec
POSTCONDITION Done
CHECK_DEADLOCK FALSE
