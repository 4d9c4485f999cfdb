SPECIFICATION GenSpec
CONSTANTS Names = {"p", "q", "r", "s"}
          Depth = 14
          Mode = "layout"
INVARIANTS Inside Emit
CHECK_DEADLOCK FALSE
