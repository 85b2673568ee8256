SPECIFICATION Spec
CONSTANTS Cols = 3 Rows = 2 V = {0, 1, 2} Exact = TRUE Depth = 0
INVARIANTS Kept Round
CHECK_DEADLOCK FALSE
