SPECIFICATION Spec
CONSTANTS MaxLevel = 3
          Vals = {1, 2, 3}
INVARIANTS SameShape Lowest Idempotent
CHECK_DEADLOCK FALSE
CONSTRAINT Depth
