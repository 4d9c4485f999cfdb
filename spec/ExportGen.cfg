SPECIFICATION GenSpec
CONSTANTS Depth = 21
INVARIANTS Emit
CHECK_DEADLOCK FALSE
