SPECIFICATION Spec
CONSTANTS MaxLevel = 4
          Names <- MCNames
CONSTRAINT Depth
INVARIANTS Idempotent ReadIsWritable KeepsHits InPlace
CHECK_DEADLOCK FALSE
