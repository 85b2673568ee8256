SPECIFICATION Spec
CONSTANTS MaxCols = 2 MaxRows = 3 Limit = 2 Early = FALSE
INVARIANT Right Tells Faithful
CHECK_DEADLOCK FALSE
