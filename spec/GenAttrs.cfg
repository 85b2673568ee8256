SPECIFICATION GenAttrSpec
CONSTANTS
 Kinds = {"F", "C", "B"}
 Names = {"a", "b", "c"}
 GroupNames = {"g1", "g2"}
 Widths = {0, 8}
 MaxAttrs = 9
 MaxRows = 3
 Growth = {0, 1, 2}
 Vals = {"z", "v1", "v2"}
 Depth = 30
 Gen = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
