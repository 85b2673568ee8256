SPECIFICATION Spec
INVARIANT Correct
PROPERTY Ends
CONSTANTS N = 5 Span = 4 Min = 3 Eps2 = 2 Border = TRUE Chain = TRUE
