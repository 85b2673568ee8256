SPECIFICATION GenSpec
CONSTANTS
 Rows = 5
 Attrs = 4
 MaxGrids = 7
 MaxSel = 7
 Depth = 14
 Gen = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
