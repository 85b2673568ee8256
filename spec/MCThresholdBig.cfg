SPECIFICATION Spec
INVARIANT Right
PROPERTY Ends
CONSTANTS N = 4 Ws = {0, 60000, 150000} Xs = {0, 1} Own = TRUE
