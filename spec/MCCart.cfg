SPECIFICATION Spec
CONSTANTS N = 3
 Crits = {"gini", "entropy", "mse", "mae"}
 Greedy = TRUE
INVARIANTS Finished Useful
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
