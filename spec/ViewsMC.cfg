SPECIFICATION MCSpec
CONSTANTS Names = {"p", "q"}
          MaxBufs = 2
          MaxLevel = 3
INVARIANT WellFormed LentWellFormed
PROPERTIES Frame FailureIsClean OneHandle LentStays
CHECK_DEADLOCK FALSE
CONSTRAINT Depth
