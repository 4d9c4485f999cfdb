SPECIFICATION GenSpec
CONSTANTS Names = {"p", "q", "r", "s"}
          TNames = {"t", "u", "v"}
          KNames = {"k", "l"}
          Depth = 20
          Plain = FALSE
INVARIANTS Inside Emit
CHECK_DEADLOCK FALSE
