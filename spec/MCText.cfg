SPECIFICATION Spec
CONSTANTS MaxLines = 2
 MaxWidth = 2
 Careless = FALSE
INVARIANTS Right Says1
PROPERTY Done
