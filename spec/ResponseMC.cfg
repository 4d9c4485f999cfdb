SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 Amp = 2
 MaxFine = 6
 MaxCoarse = 3
 MaxPer = 4
INVARIANTS Spectra Positions Responses
CHECK_DEADLOCK FALSE
