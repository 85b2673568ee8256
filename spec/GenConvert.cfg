SPECIFICATION GenSpec
CONSTANTS Cols = 0 Rows = 0 V = {} Exact = TRUE Depth = 18
INVARIANT Emit
CHECK_DEADLOCK FALSE
