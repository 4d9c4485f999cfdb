SPECIFICATION GenSpec
CONSTANTS Depth = 14
          NSrc = 3
          NOpt = 2
          Ops = {"make"}
INVARIANTS Unset Emit
CHECK_DEADLOCK FALSE
