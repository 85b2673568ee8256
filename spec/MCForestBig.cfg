SPECIFICATION Spec
CONSTANTS N = 3
 K = 1
 NT = 2
 Honest = TRUE
INVARIANTS Grounded Unanimous Sure
PROPERTIES Answers
CHECK_DEADLOCK FALSE
