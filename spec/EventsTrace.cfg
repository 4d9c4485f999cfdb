SPECIFICATION Spec
CONSTANT Slack = 10
INVARIANT Done
CHECK_DEADLOCK FALSE
