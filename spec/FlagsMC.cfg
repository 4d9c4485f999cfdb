SPECIFICATION Spec
CONSTANTS MaxLevel = 2
          Vals = {0, 1, 3}
INVARIANTS OnlyOwnFlags WholeChannels EdgesAlike NoiseSane
PROPERTIES Stable
CHECK_DEADLOCK FALSE
CONSTRAINT Depth
