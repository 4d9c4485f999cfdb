SPECIFICATION Spec
CONSTANTS
 MaxRank = 3
 MaxDim = 3
INVARIANTS CoordsOK Laws Partition SliceLaws
CHECK_DEADLOCK FALSE
