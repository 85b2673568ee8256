SPECIFICATION Spec
CONSTANTS N = 4
 C = 3
 Careful = TRUE
INVARIANTS Right Laws
PROPERTIES Ends
CHECK_DEADLOCK FALSE
