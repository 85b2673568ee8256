SPECIFICATION Spec
CONSTANTS Keys = {"a", "a1"} Vals = {1, 2} MaxWrites = 3 Rewind = TRUE Last = FALSE Depth = 0 Reads = 0
INVARIANT Right
CHECK_DEADLOCK FALSE
