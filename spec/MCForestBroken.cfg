SPECIFICATION Spec
CONSTANTS N = 2
 K = 1
 NT = 2
 Honest = FALSE
INVARIANTS Grounded Unanimous Sure
CHECK_DEADLOCK FALSE
