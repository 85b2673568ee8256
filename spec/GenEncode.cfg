SPECIFICATION GenSpec
CONSTANTS
 Labels = {1, 2, 3, 4, 5, 6, 7, 8}
 MaxHandles = 5
 Depth = 40
 Gen = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
