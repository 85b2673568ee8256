SPECIFICATION Spec
CONSTANTS
 Labels = {1, 2, 3}
 MaxHandles = 3
 Depth = 0
 Gen = FALSE
INVARIANT OneToOne
PROPERTIES Stable Apart
CHECK_DEADLOCK FALSE
