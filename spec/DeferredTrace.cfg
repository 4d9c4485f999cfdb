SPECIFICATION TraceSpec
CONSTANTS DNames = {"d", "e", "f"}
          ANames = {"a", "b", "c"}
INVARIANTS Done At
CHECK_DEADLOCK FALSE
