SPECIFICATION Spec
CONSTANTS N = 3
 NV = 2
 Sound = FALSE
INVARIANTS Finished Routed OnlyLeaves GainSane
PROPERTIES NoWorse
CHECK_DEADLOCK FALSE
