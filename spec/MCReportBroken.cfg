SPECIFICATION Spec
CONSTANTS K = 3 MaxRows = 3 Predicted = FALSE
INVARIANT Right All
CHECK_DEADLOCK FALSE
