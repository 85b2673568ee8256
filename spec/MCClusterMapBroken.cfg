SPECIFICATION Spec
INVARIANT Right
PROPERTY Ends
CONSTANTS P = 2 K = 2 Sizes = FALSE
