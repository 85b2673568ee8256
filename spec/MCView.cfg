SPECIFICATION Spec
CONSTANTS
 Rows = 2
 Attrs = 2
 MaxGrids = 2
 MaxSel = 2
 Depth = 0
 Gen = FALSE
INVARIANT WindowsInside
PROPERTIES WritesShow ViewsStable
CHECK_DEADLOCK FALSE
