SPECIFICATION GenSpec
CONSTANTS Depth = 14
          NSrc = 3
          Mode = "all"
INVARIANTS OnlyOwnFlags Emit
CHECK_DEADLOCK FALSE
