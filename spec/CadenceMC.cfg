SPECIFICATION MCSpec
CONSTANTS Names = {"p", "q"}
          TNames = {"t", "u"}
          KNames = {"k"}
          MaxLevel = 5
INVARIANTS Inside Partition SliceKeepsConsistency
PROPERTIES Separate
CHECK_DEADLOCK FALSE
CONSTRAINT Depth
