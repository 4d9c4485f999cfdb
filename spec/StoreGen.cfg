SPECIFICATION GenSpec
CONSTANTS Depth = 14
          NHit = 9
          NSrc = 4
          Names <- MCNames
INVARIANTS Idempotent ReadIsWritable KeepsHits InPlace Emit
CHECK_DEADLOCK FALSE
