SPECIFICATION TraceSpec
INVARIANTS Done At
CHECK_DEADLOCK FALSE
