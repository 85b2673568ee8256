SPECIFICATION GenSpec
CONSTANTS
 NA = 5
 MaxRows = 4
 VMax = 3
 Kinds = {"binary", "float", "custom"}
 Depth = 10
 Gen = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
