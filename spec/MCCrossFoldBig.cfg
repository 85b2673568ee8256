SPECIFICATION Spec
CONSTANTS N = 4
 K = 3
 Held = TRUE
INVARIANTS Complete
PROPERTIES Follows Ends
CHECK_DEADLOCK FALSE
