SPECIFICATION Spec
CONSTANTS N = 4
 C = 3
 Careful = FALSE
INVARIANTS Right Laws
CHECK_DEADLOCK FALSE
