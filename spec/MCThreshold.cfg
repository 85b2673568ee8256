SPECIFICATION Spec
INVARIANT Right
PROPERTY Ends
CONSTANTS N = 3 Ws = {0, 60000, 150000} Xs = {0, 1, 2} Own = TRUE
