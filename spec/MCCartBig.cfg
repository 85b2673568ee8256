SPECIFICATION Spec
CONSTANTS N = 4
 Crits = {"gini", "mse"}
 Greedy = TRUE
INVARIANTS Finished Useful
CHECK_DEADLOCK FALSE
