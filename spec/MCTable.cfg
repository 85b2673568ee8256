SPECIFICATION Spec
CONSTANTS
 MaxRows = 3
 Cols = 2
 Vals = {1, 2, 3}
INVARIANTS Conserved OneOrder Mirror
CHECK_DEADLOCK FALSE
