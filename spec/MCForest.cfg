SPECIFICATION Spec
CONSTANTS N = 2
 K = 1
 NT = 2
 Honest = TRUE
INVARIANTS Grounded Unanimous Sure
PROPERTIES Answers
CHECK_DEADLOCK FALSE
