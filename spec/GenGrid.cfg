SPECIFICATION GenSpec
CONSTANTS
 Kinds = {"F", "C", "B"}
 Names = {"a", "b", "c", "d"}
 GroupNames = {"g1", "g2", "g3"}
 Widths = {0, 2, 8}
 MaxAttrs = 11
 MaxRows = 7
 Growth = {0, 1, 2, 3}
 Vals = {"z", "v1", "v2", "v3"}
 Depth = 28
 Gen = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
