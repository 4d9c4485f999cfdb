SPECIFICATION GenSpec
CONSTANTS DNames = {"d", "e", "f"}
          ANames = {"a", "b", "c"}
          Depth = 14
INVARIANTS Bounded EagerRan ArrayNever MemoHolds LazyHolds Emit
CHECK_DEADLOCK FALSE
