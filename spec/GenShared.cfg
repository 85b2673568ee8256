SPECIFICATION GenSpec
CONSTANTS Threads = 4 Locked = TRUE Programs = {1} Depth = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
