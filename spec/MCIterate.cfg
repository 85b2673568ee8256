SPECIFICATION Spec
CONSTANT MaxRows = 4
INVARIANT EachOnceInOrder
PROPERTIES CompleteUnlessStopped Terminates
CHECK_DEADLOCK FALSE
