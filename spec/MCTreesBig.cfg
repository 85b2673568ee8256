SPECIFICATION Spec
CONSTANTS N = 3
 NV = 2
 Sound = TRUE
INVARIANTS Finished Routed OnlyLeaves GainSane
PROPERTIES NoWorse
CHECK_DEADLOCK FALSE
