SPECIFICATION Spec
CONSTANTS
 Kinds = {"F", "B"}
 Names = {"a", "b"}
 GroupNames = {"g"}
 Widths = {0, 8}
 MaxAttrs = 2
 MaxRows = 2
 Growth = {0, 1, 2}
 Vals = {"z", "v1", "v2"}
 Depth = 0
 Gen = FALSE
INVARIANT TypeOK
PROPERTIES Isolated GrowthPreserves LayoutFrozen
CHECK_DEADLOCK FALSE
