SPECIFICATION Spec
CONSTANTS MaxT = 5
          MaxF = 5
          MaxSpan = 9
INVARIANTS Integral Recovered Strongest Shape Mirror Nearby
CHECK_DEADLOCK FALSE
