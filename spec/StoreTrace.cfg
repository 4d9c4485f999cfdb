SPECIFICATION TraceSpec
CONSTANTS Names <- TraceNames
INVARIANTS Done At
CHECK_DEADLOCK FALSE
