SPECIFICATION Spec
CONSTANTS MaxOptions = 2
CONSTRAINT Small
INVARIANTS OneEach Order FormatLaws
CHECK_DEADLOCK FALSE
