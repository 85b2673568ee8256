SPECIFICATION Spec
CONSTANTS Rows = 3 V = {0, 1, 2, 3} Try = {0, 1, 2} Intercept = FALSE
INVARIANTS Solved Least Plane
CHECK_DEADLOCK FALSE
