SPECIFICATION GenSpec
CONSTANTS Keys = {} Vals = {1, 2} MaxWrites = 0 Rewind = TRUE Last = TRUE Depth = 9 Reads = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
