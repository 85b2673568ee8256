SPECIFICATION Spec
INVARIANT Right
PROPERTY Ends
CONSTANTS P = 3 K = 2 Sizes = TRUE
