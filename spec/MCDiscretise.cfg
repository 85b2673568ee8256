SPECIFICATION Spec
CONSTANTS
 MaxVal = 3
 MaxLen = 4
 MaxBins = 6
INVARIANTS CutsAreValues CoversLeast NotTooFew NoneLeft OnePlace
PROPERTY Ends
CHECK_DEADLOCK FALSE
