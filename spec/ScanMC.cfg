SPECIFICATION MCSpec
CONSTANTS Names = {"p", "q"}
          MaxLevel = 4
INVARIANTS Inside Partition SliceSelects
PROPERTIES Isolation SourcesFixed
CHECK_DEADLOCK FALSE
CONSTRAINT Depth
