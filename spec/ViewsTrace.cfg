SPECIFICATION TraceSpec
CONSTANT Names = {"p", "q", "r", "s"}
INVARIANTS WellFormed Done At
CHECK_DEADLOCK FALSE
