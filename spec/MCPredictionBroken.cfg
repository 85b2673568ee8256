SPECIFICATION Spec
CONSTANTS Labels = {0, 1} Members = 2 Batch = 3 Clear = FALSE Place = TRUE PoolSize = 0 Depth = 0
INVARIANT Answered
CHECK_DEADLOCK FALSE
