SPECIFICATION Spec
CONSTANTS Methods = {"cc", "lm"}
          NR = 2
          NF = 3
          Vals = {2, 4}
          MaxUp = 6
          Reaches = {1, 2, 3}
INVARIANTS TypeOK Disjoint Quiet Complete Connected PeaksOnly Isolation
CHECK_DEADLOCK FALSE
