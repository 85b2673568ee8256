SPECIFICATION Spec
CONSTANTS NM = 4
 NW = 3
 Cap = 2
 NR = 2
 NC = 2
 Locked = TRUE
 Patient = TRUE
INVARIANTS Sound
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
