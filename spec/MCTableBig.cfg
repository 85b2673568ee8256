SPECIFICATION Spec
CONSTANTS
 MaxRows = 4
 Cols = 2
 Vals = {1, 2}
INVARIANTS Conserved OneOrder Mirror
CHECK_DEADLOCK FALSE
