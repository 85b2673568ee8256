SPECIFICATION Spec
CONSTANTS N = 3
 K = 3
 Held = FALSE
INVARIANTS Complete
PROPERTIES Follows
CHECK_DEADLOCK FALSE
