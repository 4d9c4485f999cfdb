SPECIFICATION Spec
CONSTANT What = "flags"
INVARIANT Report
CHECK_DEADLOCK FALSE
