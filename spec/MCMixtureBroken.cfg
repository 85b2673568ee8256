SPECIFICATION Spec
INVARIANTS Likely Alone
PROPERTY Ends
CONSTANTS K = 2 Rows = 2 Span = 3 Fresh = FALSE
