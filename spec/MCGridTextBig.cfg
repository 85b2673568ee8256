SPECIFICATION Spec
CONSTANTS MaxCols = 2 MaxRows = 5 Limit = 3 Early = FALSE
INVARIANT Right Tells Faithful
CHECK_DEADLOCK FALSE
