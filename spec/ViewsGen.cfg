SPECIFICATION GenSpec
CONSTANTS Names = {"p", "q", "r", "s"}
          Depth = 14
INVARIANTS WellFormed LentWellFormed Emit
CHECK_DEADLOCK FALSE
