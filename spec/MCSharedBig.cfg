SPECIFICATION Spec
CONSTANTS Threads = 4 Locked = TRUE Programs = {1,2,3,4,5} Depth = 0
INVARIANTS Linearizable Apart Addressed
CHECK_DEADLOCK FALSE
