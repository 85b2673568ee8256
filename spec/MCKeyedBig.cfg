SPECIFICATION Spec
CONSTANTS Keys = {"a", "a1"} Vals = {1, 2} MaxWrites = 4 Rewind = TRUE Last = TRUE Depth = 0 Reads = 0
INVARIANT Right
CHECK_DEADLOCK FALSE
