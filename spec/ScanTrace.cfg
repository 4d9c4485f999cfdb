SPECIFICATION TraceSpec
CONSTANT Names = {"p", "q", "r", "s"}
INVARIANTS Inside Partition Done At
CHECK_DEADLOCK FALSE
