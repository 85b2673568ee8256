SPECIFICATION Spec
CONSTANTS
 NA = 2
 MaxRows = 2
 VMax = 1
 Kinds = {"binary", "float", "custom"}
 Depth = 0
 Gen = FALSE
INVARIANTS OneHot Untouched Injective ClassInside
CHECK_DEADLOCK FALSE
