SPECIFICATION MCSpec
CONSTANTS DNames = {"d", "e"}
          ANames = {"a", "b"}
          MaxLevel = 5
INVARIANTS Bounded EagerRan ArrayNever MemoHolds LazyHolds
PROPERTIES RunsOnlyOnUse Sticky
CHECK_DEADLOCK FALSE
CONSTRAINT Depth
