SPECIFICATION Spec
INVARIANTS Likely Alone
PROPERTY Ends
CONSTANTS K = 3 Rows = 2 Span = 4 Fresh = TRUE
