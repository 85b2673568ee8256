SPECIFICATION Spec
CONSTANTS Labels = {0, 1, 2} Members = 3 Batch = 3 Clear = TRUE Place = TRUE PoolSize = 0 Depth = 0
INVARIANT Answered
CHECK_DEADLOCK FALSE
