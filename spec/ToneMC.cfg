SPECIFICATION Spec
CONSTANTS MaxT = 3
          MaxF = 6
          MaxSpan = 3
          Reaches = {2, 3, 4}
          Steps = {1, 2}
INVARIANT Tones
CHECK_DEADLOCK FALSE
