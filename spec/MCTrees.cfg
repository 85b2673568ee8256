SPECIFICATION Spec
CONSTANTS N = 3
 NV = 1
 Sound = TRUE
INVARIANTS Finished Routed OnlyLeaves GainSane
PROPERTIES NoWorse Terminates
CHECK_DEADLOCK FALSE
