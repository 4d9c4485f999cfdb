SPECIFICATION TraceSpec
CONSTANT Names = {"p", "q", "r", "s"}
INVARIANTS Inside Done At
CHECK_DEADLOCK FALSE
