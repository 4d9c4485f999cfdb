SPECIFICATION GenSpec
CONSTANTS Depth = 14
          NSrc = 3
          NResp = 2
INVARIANTS Lowest Emit
CHECK_DEADLOCK FALSE
