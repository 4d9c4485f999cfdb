SPECIFICATION Spec
CONSTANTS MaxLevel = 4
INVARIANTS FilterLaws Unset SearchLaws
CHECK_DEADLOCK FALSE
CONSTRAINT Depth
