SPECIFICATION Spec
CONSTANT What = "power"
INVARIANT Report
CHECK_DEADLOCK FALSE
