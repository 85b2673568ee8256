SPECIFICATION Spec
CONSTANTS Threads = 4 Locked = FALSE Programs = {1} Depth = 0
INVARIANTS Linearizable Apart Addressed
CHECK_DEADLOCK FALSE
