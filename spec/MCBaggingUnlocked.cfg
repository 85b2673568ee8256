SPECIFICATION Spec
CONSTANTS NM = 3
 NW = 2
 Cap = 2
 NR = 1
 NC = 2
 Locked = FALSE
 Patient = TRUE
INVARIANTS Sound
PROPERTIES Refines
CHECK_DEADLOCK FALSE
