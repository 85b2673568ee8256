SPECIFICATION Spec
INVARIANT Correct
PROPERTY Ends
CONSTANTS N = 6 Span = 6 Min = 3 Eps2 = 2 Border = TRUE Chain = TRUE
