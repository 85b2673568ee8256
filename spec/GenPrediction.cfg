SPECIFICATION GenSpec
CONSTANTS Labels = {} Members = 0 Batch = 0 Clear = TRUE Place = TRUE PoolSize = 18 Depth = 9
INVARIANT Emit
CHECK_DEADLOCK FALSE
